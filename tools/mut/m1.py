CM='plugin/commonmark/'
M=[
("c17-quote-one","C17",[(CM+"render_blockquote.go",'''	w.Write(content)
	w.WriteRune('\\n')
	w.WriteRune('\\n')''','''	w.Write(content)
	w.WriteRune('\\n')''')]),
("c17-setext-end","C17",[(CM+"render_heading.go",'''		w.Write(underline)
		w.WriteString("\\n\\n")''','''		w.Write(underline)
		w.WriteString("\\n")''')]),
("c17-tr","C17",[("plugin/table/table.go",'''	w.WriteString("\\n\\n")
	ctx.RenderChildNodes(ctx, w, n)
	w.WriteString("\\n\\n")''','''	ctx.RenderChildNodes(ctx, w, n)
	w.WriteString("\\n")''')]),
("c17-fallback","C17",[("converter/render.go",'''	ctx.RenderChildNodes(ctx, w, node)
	if tagType == TagTypeBlock {
''','''	ctx.RenderChildNodes(ctx, w, node)
	if tagType == TagTypeBlock && node.NextSibling != nil {
''')]),
("c17-table-caption","C17",[("plugin/table/3_render.go",'''	if table.Caption != nil {
		w.WriteString("\\n\\n")
		w.Write(table.Caption)
	}
	// - - - - - - //

	w.WriteString("\\n\\n")
''','''	if table.Caption != nil {
		w.WriteString("\\n\\n")
		w.Write(table.Caption)
		return converter.RenderSuccess
	}
	// - - - - - - //

	w.WriteString("\\n\\n")
''')]),
("c17-single-item","C17",[(CM+"render_list.go",'''	w.WriteString("\\n\\n")
	for i, item''','''	if len(items) > 1 {
		w.WriteString("\\n")
	}
	w.WriteString("\\n")
	for i, item''')]),
("c17-comment","C17",[(CM+"render_comment.go",'''\\n\\n<!--''','''\\n<!--''')]),
("c17-wrapper","C17",[("plugin/base/renderers.go",'''	_ = html.Render(w, node) // TODO: what to do with error?
	if tagType == converter.TagTypeBlock {
''','''	_ = html.Render(w, node) // TODO: what to do with error?
	if tagType == converter.TagTypeBlock && node.FirstChild != nil {
''')]),
("c27-img","C27",[(CM+"render_image.go",'''	src := dom.GetAttributeOr(n, "src", "")
''','''	w.WriteRune('!')
	src := dom.GetAttributeOr(n, "src", "")
''')]),
("c27-link","C27",[(CM+"render_link.go",'''	var buf bytes.Buffer
	ctx.RenderChildNodes(ctx, &buf, n)
	content := buf.Bytes()
''','''	var buf bytes.Buffer
	ctx.RenderChildNodes(ctx, &buf, n)
	content := buf.Bytes()
	w.Write(content[:len(content)-len(bytes.TrimLeft(content, " "))])
''')]),
("c27-table","C27",[("plugin/table/3_render.go",'''	table := p.collectTableContent(ctx, n)
''','''	w.WriteString("\\n")
	table := p.collectTableContent(ctx, n)
''')]),
("c27-styles","C27",[(CM+"render_link.go",'''	default:
		return converter.RenderTryNext
''','''	default:
		w.Write(l.before)
		return converter.RenderTryNext
''')]),
]
