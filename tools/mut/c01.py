M=[
("c01-norlock","C01",[("converter/register.go","func (conv *Converter) checkIsEscapedChar(r rune) bool {\n	conv.m.RLock()\n	defer conv.m.RUnlock()\n","func (conv *Converter) checkIsEscapedChar(r rune) bool {\n")]),
("c01-rlockwrite","C01",[("converter/register.go","func (r *register) TagType(tagName string, tagType tagType, priority int) {\n	r.conv.m.Lock()\n	defer r.conv.m.Unlock()","func (r *register) TagType(tagName string, tagType tagType, priority int) {\n	r.conv.m.RLock()\n	defer r.conv.m.RUnlock()")]),
("c01-sortinplace","C01",[("converter/register.go","	handlers := make(prioritizedSlice[HandleRenderFunc], len(conv.renderHandlers))\n	copy(handlers, conv.renderHandlers)\n	handlers.Sort()","	handlers := conv.renderHandlers\n	handlers.Sort()")]),
("c01-earlyunlock","C01",[("converter/register.go","	conv.m.RLock()\n	defer conv.m.RUnlock()\n\n	handlers := make(prioritizedSlice[HandleRenderFunc]","	conv.m.RLock()\n	conv.m.RUnlock()\n\n	handlers := make(prioritizedSlice[HandleRenderFunc]")]),
("c01-scratch","C01",[("plugin/table/table.go","	cellPaddingBehavior       CellPaddingBehavior\n}","	cellPaddingBehavior       CellPaddingBehavior\n	counts []int\n}"),("plugin/table/3_render.go","	counts := calculateMaxCounts(table.Rows)","	p.counts = calculateMaxCounts(table.Rows)\n	counts := p.counts")]),
("c03-scratch","C03",[("plugin/table/table.go","	cellPaddingBehavior       CellPaddingBehavior\n}","	cellPaddingBehavior       CellPaddingBehavior\n	counts []int\n}"),("plugin/table/3_render.go","	counts := calculateMaxCounts(table.Rows)","	p.counts = calculateMaxCounts(table.Rows)\n	counts := p.counts")]),
("c01-globalbuf","C01",[("plugin/commonmark/render_list.go","func renderMultiLineListItem","var idx []byte\nfunc renderMultiLineListItem"),("plugin/commonmark/render_list.go","	indentedCodeBlockNewline := append(marker.BytesMarkerCodeBlockNewline, indent...)","	idx = append(idx[:0], marker.BytesMarkerCodeBlockNewline...)\n	idx=append(idx,indent...)\n	indentedCodeBlockNewline := idx")]),
("c03-markercap","C03",[("marker/marker.go","	BytesMarkerCodeBlockNewline = []byte{239, 128, 130}","	BytesMarkerCodeBlockNewline = append(make([]byte,0,64), 239, 128, 130)")]),
("c01-markercap","C01",[("marker/marker.go","	BytesMarkerCodeBlockNewline = []byte{239, 128, 130}","	BytesMarkerCodeBlockNewline = append(make([]byte,0,64), 239, 128, 130)")]),
("c02-norel","C02",[("converter/register.go","	r.conv.m.Lock()\n	r.conv.registeredPlugins = append(r.conv.registeredPlugins, pluginName)\n	r.conv.m.Unlock()","	r.conv.m.Lock()\n	r.conv.registeredPlugins = append(r.conv.registeredPlugins, pluginName)\n	if pluginName == \"x\" { return }\n	r.conv.m.Unlock()")]),
("c02-init","C02",[("converter/register.go","	r.conv.m.Unlock()\n\n	err := plugin.Init(r.conv)","	err := plugin.Init(r.conv)\n	r.conv.m.Unlock()")]),
("c02-reenter","C02",[("converter/register.go","	if !ok || len(types) == 0 {\n","	if !ok || len(types) == 0 {\n		if conv.getError() != nil { return \"\", false }\n")]),
("c03-global","C03",[("plugin/commonmark/handle_pre_render.go","func (c *commonmark) handlePreRender(","func (c *commonmark) handlePreRender2() { c.config.DisableListEndComment = true }\nfunc (c *commonmark) handlePreRender("),("plugin/commonmark/handle_pre_render.go","	domutils.RenameFakeSpans(ctx, doc)","	if doc.FirstChild == nil { c.handlePreRender2() }\n	domutils.RenameFakeSpans(ctx, doc)")]),
("c03-alt","C03",[("internal/domutils/alternatives.go","			fn, ok := alternatives[name]","			fn, ok := alternatives[name]\n			if !ok { alternatives[name] = headingAlternative }")]),
("c03-newstate","C03",[("converter/convert.go","	state := newGlobalState()","	state := sharedState"),("converter/convert.go","var errNoRenderHandlers","var sharedState = newGlobalState()\nvar errNoRenderHandlers"),("plugin/base/base.go","	// After removing elements","	converter.SetState(ctx, \"removed\", true)\n	// After removing elements")]),
]
