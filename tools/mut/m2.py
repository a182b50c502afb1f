U='converter/url.go'; R='converter/register.go'; V='converter/convert.go'; N='converter/render.go'; PZ='converter/prioritized.go'
M=[
# C04
("c04-query-map","C04",[(U,'''	for i, part := range rawParts {
		splitted''','''	set := map[string]int{}
	for i, part := range rawParts {
		set[part] = i
	}
	for part, i := range set {
		_ = i
		rawParts = append(rawParts[:0:0], part)
	}
	for i, part := range rawParts {
		splitted''')]),
("c04-unstable-sort","C11",[(PZ,"sort.SliceStable(","sort.Slice(")]),
("c04-charmap","C04",[('converter/escape.go',"","""
func (conv *Converter) firstChar() rune {
	for r := range conv.markdownChars {
		return r
	}
	return 0
}
"""),('converter/render.go',"	w.WriteString(content)\n	return RenderSuccess","	if conv.firstChar() == '*' {\n		content += \"\"\n		w.WriteString(\"\")\n	}\n	w.WriteString(content)\n	return RenderSuccess")]),
("c04-time","C04",[('plugin/commonmark/render_code.go','import (','import (\n	"time"'),('plugin/commonmark/render_code.go','func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {','func (c *commonmark) renderInlineCode(_ converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {\n	if time.Now().Year() > 2090 {\n		return converter.RenderTryNext\n	}')]),
("c04-env","C04",[('converter/url.go','import (','import (\n	"os"'),('converter/url.go','	if rawDomain == "" {\n		return nil','	if rawDomain == "" {\n		rawDomain = os.Getenv("H2M_BASE")\n	}\n	if rawDomain == "" {\n		return nil')]),
("c04-goroutine","C04",[('converter/render.go','''	for _, node := range nodes {
		conv.handleRenderNode(ctx, w, node)
	}''','''	done := make(chan bool)
	for _, node := range nodes {
		go func() {
			conv.handleRenderNode(ctx, w, node)
			done <- true
		}()
		<-done
	}''')]),
("c04-pointer","C04",[('plugin/table/2_collect.go' ,"","")]) if False else ("c04-pool","C03",[('converter/render.go','import (','import (\n	"sync"'),('converter/render.go','''func (conv *Converter) handleRenderText(''','''var scratch = sync.Pool{New: func() any { return new([]byte) }}

func (conv *Converter) handleRenderText('''),('converter/render.go','''	w.WriteString(content)
	return RenderSuccess''','''	b := scratch.Get().(*[]byte)
	*b = append(*b, content...)
	w.Write((*b)[len(*b)-len(content):])
	scratch.Put(b)
	return RenderSuccess''')]),
# C05
("c05-println","C05",[('plugin/commonmark/render_link.go','func (c *commonmark) renderLink','''func debugLink(s string) {
	if strings.Contains(s, "\\x01") {
		println("bad link")
	}
}

func (c *commonmark) renderLink''')]),
("c05-readfile","C05",[('converter/convert.go','import (','import (\n	"os"'),('converter/convert.go','	r := strings.NewReader(htmlInput)','	if strings.HasPrefix(htmlInput, "file://") {\n		if b, err := os.ReadFile(htmlInput[7:]); err == nil {\n			htmlInput = string(b)\n		}\n	}\n	r := strings.NewReader(htmlInput)')]),
("c05-lookup","C05",[('converter/url.go','"net/url"','"net"\n	"net/url"'),('converter/url.go','	u2, err := url.Parse("http://" + rawDomain)','	if strings.HasSuffix(rawDomain, ".internal") {\n		_, _ = net.LookupHost(rawDomain)\n	}\n	u2, err := url.Parse("http://" + rawDomain)')]),
("c05-exit","C05",[('collapse/collapse.go','import (','import (\n	"os"'),('collapse/collapse.go','func Collapse(element *html.Node, domFuncs *DomFuncs) {','func Collapse(element *html.Node, domFuncs *DomFuncs) {\n	if element.Data == "exit-now" {\n		os.Exit(3)\n	}')]),
("c05-log","C05",[('converter/register.go','import (','import (\n	"log"'),('converter/register.go','''	types, ok := conv.tagTypes[tagName]
''','''	types, ok := conv.tagTypes[tagName]
	if tagName == "blink" {
		log.Printf("unexpected tag %q", tagName)
	}
''')]),
("c05-warnmore","C05",[('converter/url.go','import (','import (\n	"fmt"'),('converter/url.go','		// We can\'t do anything with this url because it is invalid\n','		fmt.Println("[warning] invalid url")\n')]),
# C09
("c09-option-continue","C09",[('converter/converter.go','''		err := opt(conv)
		if err != nil {
			conv.setError(err)
			break
		}''','''		if err := opt(conv); err != nil {
			break
		}''')]),
("c09-plugin-err","C09",[(R,'''	err := plugin.Init(r.conv)
	if err != nil {
		r.conv.setError(fmt.Errorf("error while initializing %q plugin: %w", pluginName, err))
		return
	}''','''	if err := plugin.Init(r.conv); err != nil && r.conv.getError() == nil && len(r.conv.registeredPlugins) < 2 {
		r.conv.setError(fmt.Errorf("error while initializing %q plugin: %w", pluginName, err))
	}''')]),
("c09-lasterr","C09",[(R,'''	err := plugin.Init(r.conv)
	if err != nil {
		r.conv.setError(fmt.Errorf("error while initializing %q plugin: %w", pluginName, err))
		return
	}''','''	err := plugin.Init(r.conv)
	if err != nil {
		err = fmt.Errorf("error while initializing %q plugin: %w", pluginName, err)
	}
	r.conv.setError(err)''')]),
("c09-geterror-late","C09",[(V,'''	if err := conv.getError(); err != nil {
		// There can be errors while calling `Init` on the plugins (e.g. validation errors).
		// Now is the first opportunity where we can return that error.
		return nil, err
	}
''',''''''),(V,'''	// Render
	var buf bytes.Buffer''','''	if err := conv.getError(); err != nil {
		return nil, err
	}

	// Render
	var buf bytes.Buffer''')]),
("c09-parse-partial","C09",[(V,'''	if err != nil {
		return nil, err
	}

	return conv.ConvertNode(doc, opts...)''','''	if err != nil && doc == nil {
		return nil, err
	}
	if doc == nil {
		return nil, nil
	}

	return conv.ConvertNode(doc, opts...)''')]),
("c09-read-ignore","C09",[(V,'''	doc, err := html.Parse(r)
	if err != nil {''','''	data, _ := io.ReadAll(r)
	doc, err := html.Parse(bytes.NewReader(data))
	if err != nil {''')]),
("c09-table-opt","C09",[('plugin/table/table.go','''		err := opt(plugin)
		if err != nil {''','''		err := opt(plugin)
		if err != nil && plugin.err == nil && plugin.newlineBehavior == "" {''')]),
("c09-table-init","C09",[('plugin/table/table.go','''	if err := s.getError(); err != nil {
''','''	if err := s.getError(); err != nil && s.spanCellBehavior == "" {
''')]),
("c09-base-missing","C09",[(V,'''	if containsCommonmark && !containsBase {''','''	if containsCommonmark && !containsBase && len(conv.getPreRenderHandlers()) == 0 {''')]),
("c09-no-handlers","C09",[(V,'''	if len(conv.getRenderHandlers()) == 0 {
		return nil, errNoRenderHandlers
	}''','''	if len(conv.getRenderHandlers()) == 0 && len(conv.getTextTransformHandlers()) == 0 {
		return nil, errNoRenderHandlers
	}''')]),
("c09-string-partial","C09",[(V,'''	if err != nil {
		return "", err
	}

	return string(output), nil''','''	if err != nil {
		return htmlInput, err
	}

	return string(output), nil''')]),
("c09-validate-skip","C09",[('plugin/commonmark/commonmark.go','''	if err := validateConfig(&cm.config); err != nil {
		return err
	}''','''	if err := validateConfig(&cm.config); err != nil && !cm.DisableListEndComment {
		return err
	}''')]),
# C11
("c11-desc","C11",[(PZ,"s[i].Priority < s[j].Priority","s[i].Priority > s[j].Priority")]),
("c11-le","C11",[(PZ,"s[i].Priority < s[j].Priority","s[i].Priority <= s[j].Priority")]),
("c11-unstable","C11",[(PZ,"sort.SliceStable(","sort.Slice(")]),
("c11-no-sort-unesc","C11",[(R,'''	handlers := make(prioritizedSlice[HandleUnEscapeFunc], len(conv.unEscapeHandlers))
	copy(handlers, conv.unEscapeHandlers)
	handlers.Sort()''','''	handlers := make(prioritizedSlice[HandleUnEscapeFunc], len(conv.unEscapeHandlers))
	copy(handlers, conv.unEscapeHandlers)
	if len(handlers) < 12 {
		handlers.Sort()
	}''')]),
("c11-tagtype-last","C11",[(R,"firstType := sorted[0].Value","firstType := sorted[len(sorted)-1].Value")]),
("c11-prepend","C11",[(R,"	r.conv.renderHandlers = append(r.conv.renderHandlers, handler)","	r.conv.renderHandlers = append(prioritizedSlice[HandleRenderFunc]{handler}, r.conv.renderHandlers...)")]),
("c11-post-unchained","C11",[(V,"		result = handler.Value(customCtx, result)","		if out := handler.Value(customCtx, buf.Bytes()); len(out) > 0 {\n			result = out\n		}")]),
("c11-pre-after","C11",[(V,'''	// Post-Render
	result := buf.Bytes()''','''	for _, handler := range conv.getPreRenderHandlers() {
		if handler.Priority > PriorityLate+100 {
			handler.Value(customCtx, doc)
		}
	}
	// Post-Render
	result := buf.Bytes()''')]),
("c11-pre-skip","C11",[(V,'''		handler.Value(customCtx, doc)
	}

	// Render''','''		if handler.Priority > PriorityLate+100 {
			break
		}
		handler.Value(customCtx, doc)
	}

	// Render''')]),
("c11-pre-child","C11",[(V,'''		handler.Value(customCtx, doc)
	}

	// Render''','''		target := doc
		if doc.FirstChild != nil && doc.FirstChild == doc.LastChild && doc.FirstChild.Type == html.DocumentNode {
			target = doc.FirstChild
		}
		handler.Value(customCtx, target)
	}

	// Render''')]),
("c11-render-all","C11",[(N,'''		if status == RenderSuccess {
			return status
		}''','''		if status == RenderSuccess && handler.Priority <= PriorityLate {
			return status
		}''')]),
("c11-text-unchained","C11",[(N,'''		content = handler.Value(ctx, content)''','''		if out := handler.Value(ctx, node.Data); out != node.Data {
			content = out
		}''')]),
("c11-prio-shift","C11",[(R,'''	handler := prioritized(fn, priority)
	r.conv.postRenderHandlers''','''	if priority < 0 {
		priority = PriorityStandard
	}
	handler := prioritized(fn, priority)
	r.conv.postRenderHandlers''')]),
("c11-unesc-max","C11",[('converter/escape.go','''		for _, handler := range conv.getUnEscapeHandlers() {
			if skip := handler.Value(chars, index); skip != -1 {
				return skip
			}
		}

		return -1''','''		best := -1
		for _, handler := range conv.getUnEscapeHandlers() {
			if skip := handler.Value(chars, index); skip > best {
				best = skip
			}
		}

		return best''')]),
# C24
("c24-no-detach-next","C24",[(V,'''	doc.Parent, doc.PrevSibling, doc.NextSibling = nil, nil, nil
	defer func() {
		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
	}()''','''	doc.Parent, doc.PrevSibling = nil, nil
	defer func() {
		doc.Parent, doc.PrevSibling = parent, prevSibling
	}()
	_ = nextSibling''')]),
("c24-no-restore","C24",[(V,'''		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
	}()''','''		if doc.FirstChild != nil {
			doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
		}
	}()''')]),
("c24-swap","C24",[(V,'''		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
	}()''','''		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, nextSibling, prevSibling
	}()''')]),
("c24-late","C24",[(V,'''	parent, prevSibling, nextSibling := doc.Parent, doc.PrevSibling, doc.NextSibling
	doc.Parent, doc.PrevSibling, doc.NextSibling = nil, nil, nil
	defer func() {
		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
	}()
''',''),(V,'''	// Render
	var buf bytes.Buffer''','''	parent, prevSibling, nextSibling := doc.Parent, doc.PrevSibling, doc.NextSibling
	doc.Parent, doc.PrevSibling, doc.NextSibling = nil, nil, nil
	defer func() {
		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
	}()
	// Render
	var buf bytes.Buffer''')]),
("c24-early-restore","C24",[(V,'''	defer func() {
		doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
	}()
''',''),(V,'''	// Post-Render
	result := buf.Bytes()''','''	if buf.Len() == 0 {
		return nil, nil
	}
	doc.Parent, doc.PrevSibling, doc.NextSibling = parent, prevSibling, nextSibling
	// Post-Render
	result := buf.Bytes()''')]),
# C28
("c28-opts-dropped","C28",[('convert.go','	return conv.ConvertReader(r, opts...)','	return conv.ConvertReader(r)')]),
("c28-opts-first","C28",[(V,'''	output, err := conv.ConvertReader(r, opts...)''','''	if len(opts) > 1 {
		opts = opts[:1]
	}
	output, err := conv.ConvertReader(r, opts...)''')]),
("c28-trim","C28",[(V,'''	return string(output), nil''','''	return strings.TrimRight(string(output), "\\\\"), nil''')]),
("c28-plugins","C28",[('convert.go','''			base.NewBasePlugin(),
			commonmark.NewCommonmarkPlugin(),
		),
	)

	return conv.ConvertNode''','''			base.NewBasePlugin(),
			commonmark.NewCommonmarkPlugin(commonmark.WithListEndComment(false)),
		),
	)

	return conv.ConvertNode''')]),
("c28-input-trim","C28",[(V,'''strings.NewReader(htmlInput)''','''strings.NewReader(strings.TrimRight(htmlInput, "\\x00"))''')]),
("c28-limit","C28",[(V,'''html.Parse(r)''','''html.Parse(io.LimitReader(r, 1<<20))''')]),
("c28-parseopt","C28",[(V,'''	r := strings.NewReader(htmlInput)
	output, err := conv.ConvertReader(r, opts...)
	if err != nil {
		return "", err
	}
''','''	doc, err := html.ParseWithOptions(strings.NewReader(htmlInput), html.ParseOptionEnableScripting(false))
	if err != nil {
		return "", err
	}
	output, err := conv.ConvertNode(doc, opts...)
	if err != nil {
		return "", err
	}
''')]),
("c28-empty","C28",[(V,'''	r := strings.NewReader(htmlInput)''','''	if strings.TrimSpace(htmlInput) == "" {
		return "", nil
	}
	r := strings.NewReader(htmlInput)''')]),
("c28-escape","C28",[('convert.go','''func ConvertReader(r io.Reader, opts ...converter.ConvertOptionFunc) ([]byte, error) {
	conv := converter.NewConverter(
''','''func ConvertReader(r io.Reader, opts ...converter.ConvertOptionFunc) ([]byte, error) {
	conv := converter.NewConverter(
		converter.WithEscapeMode(converter.EscapeModeDisabled),
''')]),
]
