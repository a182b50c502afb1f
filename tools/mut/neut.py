# Refactorings that keep the behaviour: every check has to stay quiet.
CM='plugin/commonmark/'
M=[
("n-heading-helper",None,[(CM+"render_heading.go",'''		w.WriteString("\\n\\n")
		w.Write(c.atxPrefix(level))
		w.WriteRune(' ')
		w.Write(content)
		w.WriteString("\\n\\n")
	}
''','''		c.writeAtx(w, level, content)
	}
'''),(CM+"render_heading.go",'''func (c *commonmark) renderHeading(''','''func (c *commonmark) writeAtx(w converter.Writer, level int, content []byte) {
	var out []byte
	out = append(out, "\\n\\n"...)
	out = append(out, c.atxPrefix(level)...)
	out = append(out, ' ')
	out = append(out, content...)
	out = append(out, "\\n\\n"...)
	w.Write(out)
}

func (c *commonmark) renderHeading(''')]),
("n-heading-invert",None,[(CM+"render_heading.go",'''	if len(bytes.TrimSpace(content)) == 0 {
		return converter.RenderSuccess
	}
''','''	empty := len(bytes.TrimSpace(content)) == 0
	if empty {
		return converter.RenderSuccess
	}
'''),(CM+"render_heading.go","func getHeadingLevel(name string) int {\n	switch name {\n	case \"h1\":\n		return 1\n	case \"h2\":\n		return 2\n","func getHeadingLevel(name string) int {\n	if name == \"h1\" {\n		return 1\n	}\n	if name == \"h2\" {\n		return 2\n	}\n	switch name {\n")]),
("n-heading-level-arith",None,[(CM+"render_heading.go",'''	level := getHeadingLevel(dom.NodeName(n))''','''	level := int(dom.NodeName(n)[1] - '0')''')]),
("n-heading-pound",None,[(CM+"render_heading.go",'''	if len(s) == 0 || s[len(s)-1] != '#' {
		// We don't have a # at the end,
		// so there is no work to do...
		return s
	}
''','''	if !bytes.HasSuffix(s, []byte("#")) {
		return s
	}
''')]),
("n-heading-underline-loop",None,[(CM+"render_heading.go",'''	for _, part := range parts {
''','''	for i := 0; i < len(parts); i++ {
		part := parts[i]
''')]),
("n-link-sprintf",None,[(CM+"render_link.go",'''	w.WriteRune(']')
	w.WriteRune('(')
	w.WriteString(l.href)
''','''	w.WriteString("](" + l.href)
''')]),
("n-link-title-helper",None,[(CM+"render_link.go",'''	title := dom.GetAttributeOr(n, "title", "")
	title = strings.ReplaceAll(title, "\\n", " ")
	title = strings.ReplaceAll(title, "\\r", " ")
''','''	title := getTitle(n)
'''),(CM+"render_image.go",'''	title := dom.GetAttributeOr(n, "title", "")
	title = strings.ReplaceAll(title, "\\n", " ")
	title = strings.ReplaceAll(title, "\\r", " ")
''','''	title := getTitle(n)
'''),(CM+"render_image.go","func escapeAlt(",'''func getTitle(n *html.Node) string {
	title := dom.GetAttributeOr(n, "title", "")
	return strings.NewReplacer("\\n", " ", "\\r", " ").Replace(title)
}

func escapeAlt(''')]),
("n-link-switch-to-if",None,[(CM+"render_link.go",'''	switch c.LinkStyle {
	case LinkStyleInlined:
		return c.renderLinkInlined(w, l)
	default:
		return converter.RenderTryNext
	}
''','''	if c.LinkStyle != LinkStyleInlined {
		return converter.RenderTryNext
	}
	return c.renderLinkInlined(w, l)
''')]),
("n-link-nostruct",None,[(CM+"render_link.go",'''	w.Write(l.before)
	w.WriteRune('[')
	w.Write(l.content)
	w.WriteRune(']')
	w.WriteRune('(')
''','''	var b bytes.Buffer
	b.Write(l.before)
	b.WriteByte('[')
	b.Write(l.content)
	b.WriteString("](")
	w.Write(b.Bytes())
''')]),
("n-link-title-early",None,[(CM+"render_link.go",'''	if l.href == "" {
		// A link without href is valid, like e.g. [text]()
		// But a title would make it invalid.
		l.title = ""
	}
''',''''''),(CM+"render_link.go",'''	if l.title != "" {
''','''	if l.title != "" && l.href != "" {
''')]),
("n-image-alt-loop",None,[(CM+"render_image.go",'''	for i := range alt {
		if alt[i] == '[' || alt[i] == ']' {
			prevIndex := i - 1
			if prevIndex < 0 || alt[prevIndex] != '\\\\' {
				buf.WriteRune('\\\\')
			}
		}
		buf.WriteByte(alt[i])
	}
''','''	for i, b := range alt {
		isBracket := b == '[' || b == ']'
		if isBracket && (i == 0 || alt[i-1] != '\\\\') {
			buf.WriteByte('\\\\')
		}
		buf.WriteByte(b)
	}
''')]),
("n-image-writer",None,[(CM+"render_image.go",'''	w.WriteRune('!')
	w.WriteRune('[')
	w.WriteString(alt)
	w.WriteRune(']')
	w.WriteRune('(')
	w.WriteString(src)
''','''	w.WriteString("![")
	w.WriteString(alt)
	w.WriteString("](")
	w.WriteString(src)
''')]),
("n-code-fence-helper",None,[(CM+"render_code.go",'''	maxCount := textutils.CalculateCodeFenceOccurrences(fenceChar, code)
	maxCount++

	fence := strings.Repeat(string(fenceChar), maxCount)
''','''	fence := inlineFence(fenceChar, code)
'''),(CM+"render_code.go",'''func getCodeLanguage(''','''func inlineFence(char rune, code string) string {
	return strings.Repeat(string(char), textutils.CalculateCodeFenceOccurrences(char, code)+1)
}

func getCodeLanguage(''')]),
("n-code-block-order",None,[(CM+"render_code.go",'''	w.WriteString("\\n\\n")
	w.WriteString(fence)
	w.WriteString(infoString)
	w.WriteRune('\\n')
''','''	w.WriteString("\\n\\n" + fence + infoString + "\\n")
''')]),
("n-code-suffix",None,[(CM+"render_code.go",'''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	code = bytes.TrimSuffix(code, []byte("\\n"))
''')]),
("n-code-walk-helper",None,[(CM+"render_code.go",'''		if n.Type == html.ElementNode && (n.Data == "style" || n.Data == "script" || n.Data == "textarea") {
			return
		}
''','''		if isSkipped(n) {
			return
		}
'''),(CM+"render_code.go",'''func getCodeLanguage(''','''func isSkipped(n *html.Node) bool {
	if n.Type != html.ElementNode {
		return false
	}
	switch n.Data {
	case "style", "script", "textarea":
		return true
	}
	return false
}

func getCodeLanguage(''')]),
("n-fence-run",None,[("internal/textutils/codefence.go",'''	var occurrences []int
	var charsTogether int
	for _, char := range content {
		// We encountered a fence character, now count how many
		// are directly afterwards
		if char == fenceChar {
			charsTogether++
		} else if charsTogether != 0 {
			occurrences = append(occurrences, charsTogether)
			charsTogether = 0
		}
	}

	// If the last element in the content was a fenceChar
	if charsTogether != 0 {
		occurrences = append(occurrences, charsTogether)
	}

	return findMax(occurrences)
''','''	longest := 0
	run := 0
	for _, char := range content {
		if char != fenceChar {
			run = 0
			continue
		}
		run++
		if run > longest {
			longest = run
		}
	}
	return longest
'''),("internal/textutils/codefence.go",'''
func findMax(a []int) (max int) {
	for i, value := range a {
		if i == 0 {
			max = a[i]
		}

		if value > max {
			max = value
		}
	}
	return max
}''','')]),
("n-fence-max",None,[("internal/textutils/codefence.go",'''	if repeat < 3 {
		repeat = 3
	}

	return strings.Repeat(string(fenceChar), repeat)''','''	return strings.Repeat(string(fenceChar), max(repeat, 3))''')]),
("n-list-index",None,[(CM+"render_list.go",'''	for i, item := range items {
		w.WriteString(getPrefix(i))
''','''	for i := 0; i < len(items); i++ {
		item := items[i]
		w.WriteString(getPrefix(i))
''')]),
("n-list-sep-first",None,[(CM+"render_list.go",'''		w.WriteString(getPrefix(i))
''','''		if i > 0 {
			w.WriteRune('\\n')
		}
		w.WriteString(getPrefix(i))
'''),(CM+"render_list.go",'''		renderMultiLineListItem(w, item, indentCount)

		if i < len(items)-1 {
			w.WriteRune('\\n')
		}
''','''		renderMultiLineListItem(w, item, indentCount)
''')]),
("n-list-collect-helper",None,[(CM+"render_list.go",'''	items := make([][]byte, 0, len(children))
	for _, child := range children {
		var buf bytes.Buffer
		ctx.RenderNodes(ctx, &buf, child)

		content := buf.Bytes()
		content = bytes.TrimSpace(content)
		if content == nil {
			continue
		}

		items = append(items, content)
	}
''','''	items := collectItems(ctx, children)
'''),(CM+"render_list.go",'''func renderMultiLineListItem(''','''func collectItems(ctx converter.Context, children []*html.Node) (items [][]byte) {
	for _, child := range children {
		var buf bytes.Buffer
		ctx.RenderNodes(ctx, &buf, child)

		if content := bytes.TrimSpace(buf.Bytes()); content != nil {
			items = append(items, content)
		}
	}
	return items
}

func renderMultiLineListItem(''')]),
("n-quote-write",None,[(CM+"render_blockquote.go",'''	w.WriteRune('\\n')
	w.WriteRune('\\n')
	w.Write(content)
''','''	w.WriteString("\\n\\n")
	w.Write(content)
''')]),
("n-quote-marker-order",None,[(CM+"render_blockquote.go",'''	content = textutils.PrefixLines(content, []byte{'>', ' '})
''','''	prefix := []byte("> ")
	content = textutils.PrefixLines(content, prefix)
'''),(CM+"render_blockquote.go",'''		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
''','''		append(append([]byte{}, marker.BytesMarkerCodeBlockNewline...), prefix...),
''')]),
("n-prefixlines",None,[("internal/textutils/prefix_lines.go",'''	newSlice := make([]byte, 0, len(source))

	newSlice = append(newSlice, repl...)

	for _, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' {
			newSlice = append(newSlice, repl...)
		}
	}

	return newSlice''','''	newline := append([]byte{'\\n'}, repl...)
	out := append([]byte{}, repl...)
	return append(out, bytes.ReplaceAll(source, []byte{'\\n'}, newline)...)'''),("internal/textutils/prefix_lines.go","package textutils\n","package textutils\n\nimport \"bytes\"\n")]),
("n-bold-switch",None,[(CM+"render_bold_italic.go",'''	if name == "strong" || name == "b" {
		return []byte(c.StrongDelimiter)
	} else if name == "em" || name == "i" {
		return []byte(c.EmDelimiter)
	} else {
		return nil
	}
''','''	switch name {
	case "strong", "b":
		return []byte(c.StrongDelimiter)
	case "em", "i":
		return []byte(c.EmDelimiter)
	}
	return nil
''')]),
("n-delim-join",None,[("internal/textutils/delimiter.go",'''	var buf bytes.Buffer

	lines := bytes.Split(text, []byte("\\n"))
	for i, line := range lines {
		leftExtra, trimmed, rightExtra := SurroundingSpaces(line)

		if trimmed == nil {
			// For empty lines, we don't need a delimiter
			buf.Write(leftExtra)
			buf.Write(rightExtra)
		} else {
			buf.Write(leftExtra)

			buf.Write(delimiter)
			buf.Write(trimmed)
			buf.Write(delimiter)

			buf.Write(rightExtra)
		}

		// To join the lines again, add a newlines character
		if i < len(lines)-1 {
			buf.WriteRune('\\n')
		}
	}

	return buf.Bytes()''','''	var out []byte

	lines := bytes.Split(text, []byte("\\n"))
	for i, line := range lines {
		if i > 0 {
			out = append(out, '\\n')
		}
		leftExtra, trimmed, rightExtra := SurroundingSpaces(line)

		out = append(out, leftExtra...)
		if trimmed != nil {
			out = append(out, delimiter...)
			out = append(out, trimmed...)
			out = append(out, delimiter...)
		}
		out = append(out, rightExtra...)
	}

	return out''')]),
("n-quotes-pick",None,[("internal/textutils/quote.go",'''	if containsDoubleQuote {
		// Since it contains double quotes (but no single quotes)
		// we can surround it by single quotes
		return SurroundBy(content, []byte(`'`))
	}

	// It may contain single quotes, but definitely no double quotes,
	// so we can safely surround it by double quotes.
	return SurroundBy(content, []byte(`"`))''','''	quote := `"`
	if containsDoubleQuote {
		quote = `'`
	}
	return SurroundBy(content, []byte(quote))''')]),
("n-render-handlers",None,[("converter/render.go",'''	for _, handler := range conv.getRenderHandlers() {
		status := handler.Value(ctx, w, node)
		if status == RenderSuccess {
			return status
		}
	}
''','''	if conv.tryHandlers(ctx, w, node) {
		return RenderSuccess
	}
'''),("converter/render.go","func (conv *Converter) handleRenderFallback(",'''func (conv *Converter) tryHandlers(ctx Context, w Writer, node *html.Node) bool {
	handlers := conv.getRenderHandlers()
	for i := range handlers {
		if handlers[i].Value(ctx, w, node) == RenderSuccess {
			return true
		}
	}
	return false
}

func (conv *Converter) handleRenderFallback(''')]),
("n-render-fallback",None,[("converter/render.go",'''	if tagType == TagTypeBlock {
		w.WriteRune('\\n')
		w.WriteRune('\\n')
	}

	ctx.RenderChildNodes(ctx, w, node)
	if tagType == TagTypeBlock {
		w.WriteRune('\\n')
		w.WriteRune('\\n')
	}
''','''	separator := ""
	if tagType == TagTypeBlock {
		separator = "\\n\\n"
	}

	w.WriteString(separator)
	ctx.RenderChildNodes(ctx, w, node)
	w.WriteString(separator)
''')]),
("n-escape-rewrite",None,[("converter/escape.go",'''		isMarkdownChar := conv.checkIsEscapedChar(r)
		if isMarkdownChar {
			newChars = append(newChars, placeholderByte, chars[index])
		} else {
			newChars = append(newChars, chars[index])
		}
''','''		if conv.checkIsEscapedChar(r) {
			newChars = append(newChars, placeholderByte)
		}
		newChars = append(newChars, chars[index])
''')]),
("n-unescape-onepass",None,[("converter/escape.go",'''	newChars := make([]byte, 0, len(chars))
	for index, char := range chars {
		if char != placeholderByte {
			newChars = append(newChars, char)
			continue
		}

		// What to do with this placeholder? Should we escape or not?
		if changes[index] == actionEscape {
			newChars = append(newChars, '\\\\')
		}
	}
''','''	newChars := make([]byte, 0, len(chars))
	for index := 0; index < len(chars); index++ {
		switch {
		case chars[index] != placeholderByte:
			newChars = append(newChars, chars[index])
		case changes[index] == actionEscape:
			newChars = append(newChars, '\\\\')
		}
	}
''')]),
("n-unescape-helper",None,[("converter/escape.go",'''	checkElements := func(index int) int {
		for _, handler := range conv.getUnEscapeHandlers() {
			if skip := handler.Value(chars, index); skip != -1 {
				return skip
			}
		}
		return -1
	}
''',''''''),("converter/escape.go",'''		skip := checkElements(index + 1)
''','''		skip := conv.checkElements(chars, index+1)
'''),("converter/escape.go","func (conv *Converter) unEscapeContent(",'''func (conv *Converter) checkElements(chars []byte, index int) int {
	for _, handler := range conv.getUnEscapeHandlers() {
		skip := handler.Value(chars, index)
		if skip == -1 {
			continue
		}
		return skip
	}
	return -1
}

func (conv *Converter) unEscapeContent(''')]),
("n-divider-scan-helper",None,[("internal/escape/elem_divider.go",'''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}

		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == ' ' {
			continue
		}
		return -1
	}
''','''	if !isAtLineStart(chars, index) {
		return -1
	}
'''),("internal/escape/elem_divider.go","func IsDivider(",'''func isAtLineStart(chars []byte, index int) bool {
	for i := index - 1; i >= 0; i-- {
		switch chars[i] {
		case '\\n':
			return true
		case placeholderByte, ' ':
			continue
		}
		return false
	}
	return true
}

func IsDivider('''),("internal/escape/elem_quote.go",'''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}

		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == ' ' {
			continue
		}

		return -1
	}

	return 1''','''	if isAtLineStart(chars, index) {
		return 1
	}
	return -1''')]),
("n-fenced-while",None,[("internal/escape/elem_code.go",'''	count := 1
	i := index + 1
	for ; i < len(chars); i++ {
		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == '`' || chars[i] == '~' {
			count++
			continue
		}

		break
	}
''','''	count := 1
	i := index + 1
	for i < len(chars) && (chars[i] == placeholderByte || chars[i] == '`' || chars[i] == '~') {
		if chars[i] != placeholderByte {
			count++
		}
		i++
	}
''')]),
("n-trigger-switch",None,[("internal/escape/elem_list.go",'''	if chars[index] != '-' && chars[index] != '*' && chars[index] != '+' {
		return -1
	}
''','''	switch chars[index] {
	case '-', '*', '+':
	default:
		return -1
	}
''')]),
("n-setext-flip",None,[("internal/escape/elem_header.go",'''		if newlineCount == 0 {
			// Without any newlines, this character is on the same line
			// as the delimiter. So the delimiter is inside a normal text...
			return -1
		} else if newlineCount == 1 {
			// The heading content is on the line above the delimiter
			// which qualifies for a setext heading...
			return 1
		} else {
			return -1
		}
''','''		if newlineCount == 1 {
			return 1
		}
		return -1
''')]),
("n-remove-collect",None,[("plugin/base/base.go",'''		for child := node.FirstChild; child != nil; child = child.NextSibling {
			// Because we are sometimes removing a node, this causes problems
			// with the for loop. Using `defer` is a cool trick!
			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
			defer finder(child)
		}
''','''		for _, child := range dom.AllChildNodes(node) {
			finder(child)
		}
''')]),
("n-remove-next",None,[("plugin/base/base.go",'''		for child := node.FirstChild; child != nil; child = child.NextSibling {
			// Because we are sometimes removing a node, this causes problems
			// with the for loop. Using `defer` is a cool trick!
			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
			defer finder(child)
		}
''','''		child := node.FirstChild
		for child != nil {
			next := child.NextSibling
			finder(child)
			child = next
		}
''')]),
("n-base-tagloop",None,[("plugin/base/base.go",'''	conv.Register.TagType("head", converter.TagTypeRemove, converter.PriorityStandard)

	conv.Register.TagType("script", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("style", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("link", converter.TagTypeRemove, converter.PriorityStandard)
''','''	for _, name := range []string{"head", "script", "style", "link"} {
		conv.Register.TagType(name, converter.TagTypeRemove, converter.PriorityStandard)
	}
''')]),
("n-base-text",None,[("plugin/base/base.go",'''	content = characterEntityReplacer.Replace(content)

	// TODO: reduce conversion between types
	content = string(ctx.EscapeContent([]byte(content)))

	return content''','''	replaced := []byte(characterEntityReplacer.Replace(content))
	return string(ctx.EscapeContent(replaced))''')]),
("n-base-entities",None,[("plugin/base/base.go",'''	content = characterEntityReplacer.Replace(content)
''','''	content = strings.ReplaceAll(content, "<", "&lt;")
	content = strings.ReplaceAll(content, ">", "&gt;")
''')]),
("n-merge-children",None,[("internal/domutils/adjacent.go",'''		children := dom.AllChildNodes(node)
		for _, child := range children {
			dom.RemoveNode(child)
			destinationNode.AppendChild(child)
		}
		dom.RemoveNode(node)
''','''		moveChildren(destinationNode, node)
		dom.RemoveNode(node)
'''),("internal/domutils/adjacent.go","func mergeChildren(",'''func moveChildren(to, from *html.Node) {
	for from.FirstChild != nil {
		child := from.FirstChild
		from.RemoveChild(child)
		to.AppendChild(child)
	}
}

func mergeChildren(''')]),
("n-merge-text",None,[("internal/domutils/adjacent.go",'''	for c := n.FirstChild; c != nil; {
		next := c.NextSibling

		if c.Type == html.TextNode && prev != nil && prev.Type == html.TextNode {
			// Combine adjacent text nodes
			prev.Data += c.Data
			n.RemoveChild(c)
		} else {
			MergeAdjacentTextNodes(c)
			prev = c
		}

		c = next
	}
''','''	for _, c := range dom.AllChildNodes(n) {
		isPair := prev != nil && prev.Type == html.TextNode && c.Type == html.TextNode
		if !isPair {
			MergeAdjacentTextNodes(c)
			prev = c
			continue
		}
		prev.Data = prev.Data + c.Data
		n.RemoveChild(c)
	}
''')]),
("n-listitems-switch",None,[("internal/domutils/list_items.go",'''				if previousLi != nil {
					// There is a previous "li" node,
					// so we move this content into the other "li" node.
					n.RemoveChild(child)
					previousLi.AppendChild(child)
				} else {
''','''				if li := previousLi; li != nil {
					dom.RemoveNode(child)
					li.AppendChild(child)
				} else {
''')]),
("n-emptycode",None,[("internal/domutils/empty_code.go",'''		if dom.NodeName(node) == "code" && !hasTextChildNodes(node) {
			next := dom.GetNextNeighborNodeExcludingOwnChild(node)
			dom.RemoveNode(node)
			node = next
			continue
		}

		node = dom.GetNextNeighborNode(node)
''','''		if dom.NodeName(node) != "code" || hasTextChildNodes(node) {
			node = dom.GetNextNeighborNode(node)
			continue
		}
		next := dom.GetNextNeighborNodeExcludingOwnChild(node)
		dom.RemoveNode(node)
		node = next
''')]),
("n-swap-multi",None,[("internal/domutils/swap.go",'''	tempDataAtom := node1.DataAtom
	tempData := node1.Data
	tempAttr := node1.Attr

	node1.DataAtom = node2.DataAtom
	node1.Data = node2.Data
	node1.Attr = node2.Attr

	node2.DataAtom = tempDataAtom
	node2.Data = tempData
	node2.Attr = tempAttr
''','''	node1.DataAtom, node2.DataAtom = node2.DataAtom, node1.DataAtom
	node1.Data, node2.Data = node2.Data, node1.Data
	node1.Attr, node2.Attr = node2.Attr, node1.Attr
''')]),
("n-table-cells",None,[("plugin/table/3_render.go",'''	for i, cell := range cells {
		isFirstCell := i == 0
		if isFirstCell {
			w.WriteString("|")
		}

		currentCount''','''	if len(cells) > 0 {
		w.WriteString("|")
	}
	for i, cell := range cells {
		currentCount''')]),
("n-table-body",None,[("plugin/table/3_render.go",'''	for _, cells := range table.Rows[1:] {
		p.writeRow(w, counts, cells)
		w.WriteString("\\n")
	}
''','''	for i := 1; i < len(table.Rows); i++ {
		p.writeRow(w, counts, table.Rows[i])
		w.WriteString("\\n")
	}
''')]),
("n-table-newline-helper",None,[("plugin/table/2_collect.go",'''				if p.newlineBehavior == NewlineBehaviorPreserve {
					// Replace newlines with <br /> tags
					cell = bytes.ReplaceAll(cell, []byte("\\n"), []byte("<br />"))
					// The newlines of code blocks were replaced by another character
					rows[i][j] = bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, []byte("<br />"))
					continue
				}

				// We're configured to skip tables with newlines, return nil
				return nil
''','''				if p.newlineBehavior != NewlineBehaviorPreserve {
					return nil
				}
				rows[i][j] = replaceNewlines(cell)
'''),("plugin/table/2_collect.go","func hasProblematicChildNode(",'''func replaceNewlines(cell []byte) []byte {
	br := []byte("<br />")
	cell = bytes.ReplaceAll(cell, []byte("\\n"), br)
	return bytes.ReplaceAll(cell, marker.BytesMarkerCodeBlockNewline, br)
}

func hasProblematicChildNode(''')]),
("n-table-span-clamp",None,[("plugin/table/2_collect.go",'''		rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxSpan)
		colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxSpan)
''','''		rowSpan := getSpan(cellNode, "rowspan")
		colSpan := getSpan(cellNode, "colspan")
'''),("plugin/table/2_collect.go","func hasProblematicChildNode(",'''func getSpan(node *html.Node, key string) int {
	span := getNumberAttributeOr(node, key, 1)
	if span > maxSpan {
		return maxSpan
	}
	return span
}

func hasProblematicChildNode(''')]),
("n-table-grow",None,[("plugin/table/utils.go",'''	for range growBy {
		contents = append(contents, placeholderVal)
	}
''','''	for i := 0; i < growBy; i++ {
		contents = append(contents, placeholderVal)
	}
''')]),
("n-table-parent",None,[("plugin/table/2_collect.go",'''	p := node.Parent

	for p != nil {
''','''	for p := node.Parent; p != nil; p = p.Parent {
'''),("plugin/table/2_collect.go",'''			return true
		}

		p = p.Parent
	}
''','''			return true
		}
	}
''')]),
("n-register-helper",None,[("converter/register.go",'''	r.conv.m.Lock()
	r.conv.registeredPlugins = append(r.conv.registeredPlugins, pluginName)
	r.conv.m.Unlock()
''','''	r.conv.addPluginName(pluginName)
'''),("converter/register.go",'''func (r *register) Plugin(''','''func (conv *Converter) addPluginName(name string) {
	conv.m.Lock()
	defer conv.m.Unlock()

	conv.registeredPlugins = append(conv.registeredPlugins, name)
}

func (r *register) Plugin(''')]),
("n-register-generic",None,[("converter/register.go",'''	handlers := make(prioritizedSlice[HandleRenderFunc], len(conv.renderHandlers))
	copy(handlers, conv.renderHandlers)
	handlers.Sort()
	return handlers
''','''	return sortedCopy(conv.renderHandlers)
'''),("converter/register.go",'''func (r *register) Plugin(''','''func sortedCopy[V any](list prioritizedSlice[V]) prioritizedSlice[V] {
	result := make(prioritizedSlice[V], len(list))
	copy(result, list)
	result.Sort()
	return result
}

func (r *register) Plugin(''')]),
("n-convert-split",None,[("converter/convert.go",'''	// Pre-Render
	for _, handler := range conv.getPreRenderHandlers() {
		handler.Value(customCtx, doc)
	}

	// Render
	var buf bytes.Buffer
	conv.handleRenderNode(customCtx, &buf, doc)

	// Post-Render
	result := buf.Bytes()
	for _, handler := range conv.getPostRenderHandlers() {
		result = handler.Value(customCtx, result)
	}

	return result, nil
''','''	return conv.runPhases(customCtx, doc), nil
'''),("converter/convert.go",'''// ConvertReader converts''','''func (conv *Converter) runPhases(ctx Context, doc *html.Node) []byte {
	for _, handler := range conv.getPreRenderHandlers() {
		handler.Value(ctx, doc)
	}

	var buf bytes.Buffer
	conv.handleRenderNode(ctx, &buf, doc)
	result := buf.Bytes()

	for _, handler := range conv.getPostRenderHandlers() {
		result = handler.Value(ctx, result)
	}
	return result
}

// ConvertReader converts''')]),
("n-convert-reader",None,[("converter/convert.go",'''	r := strings.NewReader(htmlInput)
	output, err := conv.ConvertReader(r, opts...)
	if err != nil {
		return "", err
	}

	return string(output), nil''','''	output, err := conv.ConvertReader(strings.NewReader(htmlInput), opts...)
	return string(output), err''')]),
("n-url-return",None,[("converter/url.go",'''	u, err := url.Parse(rawURL)
	if err != nil {
		// We can't do anything with this url because it is invalid
		return percentEncodingReplacer.Replace(rawURL)
	}
	if u.Scheme == "data" {
		// This is a data uri (for example an inline base64 image)
		return percentEncodingReplacer.Replace(rawURL)
	}
''','''	u, err := url.Parse(rawURL)
	if err != nil || u.Scheme == "data" {
		return percentEncode(rawURL)
	}
'''),("converter/url.go","func parseBaseDomain(",'''func percentEncode(s string) string {
	return percentEncodingReplacer.Replace(s)
}

func parseBaseDomain(''')]),
("n-url-query",None,[("converter/url.go",'''		splitted := strings.SplitN(part, "=", 2)
		if len(splitted) == 1 {
			// A: Just the key
			encodedParts[i] = decodeAndEncode(splitted[0])
		} else if splitted[1] == "" {
			// B: The key and the equal sign
			encodedParts[i] = decodeAndEncode(splitted[0]) + "="
		} else {
			// C: The key and the equal sign and the value
			encodedParts[i] = decodeAndEncode(splitted[0]) + "=" + decodeAndEncode(splitted[1])
		}
''','''		key, value, hasValue := strings.Cut(part, "=")
		encodedParts[i] = decodeAndEncode(key)
		if hasValue {
			encodedParts[i] += "=" + decodeAndEncode(value)
		}
''')]),
("n-cli-output-merge",None,[("cli/html2markdown/cmd/io_output.go",'''			err := WriteFile(filepath.Join(cli.config.outputFilepath, filename), markdown, cli.config.outputOverwrite)
''','''			target := filepath.Join(cli.config.outputFilepath, filename)
			err := WriteFile(target, markdown, cli.config.outputOverwrite)
''')]),
("n-cli-write-helper",None,[("cli/html2markdown/cmd/io_output.go",'''	flag := os.O_WRONLY | os.O_CREATE
	if override {
		// We add this flag:
		//   O_TRUNC = the existing contents are truncated to zero length
		flag |= os.O_TRUNC
	} else {
		// We add this flag:
		//   O_EXCL = if used with O_CREATE, causes error if file already exists
		flag |= os.O_EXCL
	}

	f, err := os.OpenFile(filename, flag, 0644)
''','''	f, err := os.OpenFile(filename, openFlags(override), 0644)
'''),("cli/html2markdown/cmd/io_output.go",'''// WriteFile writes data''','''func openFlags(override bool) int {
	if override {
		return os.O_WRONLY | os.O_CREATE | os.O_TRUNC
	}
	return os.O_WRONLY | os.O_CREATE | os.O_EXCL
}

// WriteFile writes data''')]),
("n-cli-execute",None,[("cli/html2markdown/cmd/exec.go",'''	if err != nil {
		cli.PrintErr(err)

		OsExiter(1) // General Error
		return
	} else {
		OsExiter(0)
		return
	}
''','''	exitCode := 0
	if err != nil {
		cli.PrintErr(err)
		exitCode = 1
	}
	OsExiter(exitCode)
''')]),
("n-cli-loop-helper",None,[("cli/html2markdown/cmd/exec.go",'''		data, err := cli.readInput(input)
		if err != nil {
			return nil, err
		}

		markdown, err := cli.convert(data)
		if err != nil {
			return nil, err
		}

		err = cli.writeOutput(outputType, input.outputFullFilepath, markdown)
		if err != nil {
			return nil, err
		}
''','''		if err := cli.processInput(outputType, input); err != nil {
			return nil, err
		}
'''),("cli/html2markdown/cmd/exec.go",'''func (cli *CLI) run() (''','''func (cli *CLI) processInput(outputType outputType, in *input) error {
	data, err := cli.readInput(in)
	if err != nil {
		return err
	}

	markdown, err := cli.convert(data)
	if err != nil {
		return err
	}

	return cli.writeOutput(outputType, in.outputFullFilepath, markdown)
}

func (cli *CLI) run() (''')]),
("n-cli-basename",None,[("cli/html2markdown/cmd/io_output.go",'''		val := allBasenames[basename]
		if val == 0 {
			// -> The standard filename
			input.outputFullFilepath = basename + ".md"
		} else {
''','''		name := basename + ".md"
		if allBasenames[basename] == 0 {
			// -> The standard filename
			input.outputFullFilepath = name
		} else {
''')]),
("n-cli-exclude",None,[("cli/html2markdown/cmd/cmd_convert.go",'''	if len(cli.config.excludeSelector) == 0 {
		return nil
	}

	var finder func(node *html.Node)
''','''	selector := cli.config.excludeSelector
	if len(selector) == 0 {
		return nil
	}

	var finder func(node *html.Node)
'''),("cli/html2markdown/cmd/cmd_convert.go",'''		if cli.config.excludeSelector.Match(node) {
''','''		if selector.Match(node) {
''')]),
("n-cli-plugins",None,[("cli/html2markdown/cmd/cmd_convert.go",'''	conv := converter.NewConverter(
		converter.WithPlugins(
			base.NewBasePlugin(),
			commonmark.NewCommonmarkPlugin(
				commonmark.WithStrongDelimiter(cli.config.strongDelimiter),
			),
		),
	)
	if cli.config.enablePluginStrikethrough {
''','''	conv := cli.newConverter()
	if cli.config.enablePluginStrikethrough {
'''),("cli/html2markdown/cmd/cmd_convert.go",'''func (cli *CLI) convert(''','''func (cli *CLI) newConverter() *converter.Converter {
	plugins := []converter.Plugin{
		base.NewBasePlugin(),
		commonmark.NewCommonmarkPlugin(commonmark.WithStrongDelimiter(cli.config.strongDelimiter)),
	}
	return converter.NewConverter(converter.WithPlugins(plugins...))
}

func (cli *CLI) convert(''')]),
("n-valid-contains",None,[(CM+"validation.go",'''	for _, val := range values {
		if val == searchVal {
			return true
		}
	}
	return false
''','''	return slices.Contains(values, searchVal)
'''),(CM+"validation.go",'''	"fmt"
''','''	"fmt"
	"slices"
''')]),
("n-valid-eq",None,[(CM+"validation.go",'''	if !contains([]string{"_", "*"}, cfg.EmDelimiter) {
''','''	if cfg.EmDelimiter != "_" && cfg.EmDelimiter != "*" {
''')]),
("n-collapse-helper",None,[("collapse/collapse.go",'''			if (prevText == nil || strings.HasSuffix(prevText.Data, " ")) &&
				!keepLeadingWs && text != "" && text[0] == ' ' {
				text = text[1:]
			}
''','''			afterSpace := prevText == nil || strings.HasSuffix(prevText.Data, " ")
			if afterSpace && !keepLeadingWs {
				text = strings.TrimPrefix(text, " ")
			}
''')]),
("n-collapse-next",None,[("collapse/collapse.go",'''		var nextNode = nextNode(prev, node, domFuncs)
		prev = node
		node = nextNode
''','''		prev, node = node, nextNode(prev, node, domFuncs)
''')]),
("n-ctx-children",None,[("converter/ctx.go",'''	c.conv.handleRenderNodes(ctx, w, dom.AllChildNodes(n)...)
''','''	for _, child := range dom.AllChildNodes(n) {
		c.conv.handleRenderNode(ctx, w, child)
	}
''')]),
("n-tagtype-min",None,[("converter/register.go",'''	// The list is shared between conversions, so only sort a copy of it.
	sorted := make(prioritizedSlice[tagType], len(types))
	copy(sorted, types)
	sorted.Sort()

	firstType := sorted[0].Value
	return firstType, true
''','''	first := types[0]
	for _, t := range types[1:] {
		if t.Priority < first.Priority {
			first = t
		}
	}
	return first.Value, true
''')]),
("n-strike-inline",None,[("plugin/strikethrough/strikethrough.go",'''	content = textutils.DelimiterForEveryLine(content, []byte(s.delimiter))

	w.Write(content)

	return converter.RenderSuccess
''','''	delimiter := []byte(s.delimiter)
	w.Write(textutils.DelimiterForEveryLine(content, delimiter))

	return converter.RenderSuccess
''')]),
("n-dispatch-map",None,[(CM+"handle_render.go",'''	case "hr":
		return c.renderDivider(ctx, w, n)
	case "br":
		return c.renderBreak(ctx, w, n)
''','''	case "br":
		return c.renderBreak(ctx, w, n)
	case "hr":
		return c.renderDivider(ctx, w, n)
''')]),
("n-dispatch-if",None,[(CM+"handle_render.go",'''	name := dom.NodeName(n)

	switch name {
''','''	name := dom.NodeName(n)
	if name == "#text" {
		return converter.RenderTryNext
	}

	switch name {
''')]),
("n-alternatives-switch",None,[("internal/domutils/alternatives.go",'''			fn, ok := alternatives[name]
			if ok {
				fn(ctx, node)
			} else {
				node.Data = "span"
			}
''','''			if fn, ok := alternatives[name]; ok {
				fn(ctx, node)
			} else {
				node.Data = "span"
			}
''')]),
("n-linebreaks",None,[("internal/textutils/consecutive_newlines.go",'''	content = bytes.ReplaceAll(content, []byte("  \\n\\n"), []byte("\\n\\n"))
''','''	blank := []byte("\\n\\n")
	content = bytes.ReplaceAll(content, []byte("  \\n\\n"), blank)
''')]),
("n-trimnl",None,[("internal/textutils/consecutive_newlines.go",'''			newlineCount++
			if newlineCount <= 2 {
				// Preserve up to 2 newlines, including preceding spaces
				result = append(result, spaceBuffer...)
				result = append(result, '\\n')
				spaceBuffer = spaceBuffer[:0] // Clear space buffer
			} else {
				// Skip additional newlines
				spaceBuffer = spaceBuffer[:0] // Clear space buffer
			}
''','''			newlineCount++
			if newlineCount <= 2 {
				result = append(append(result, spaceBuffer...), '\\n')
			}
			spaceBuffer = spaceBuffer[:0]
''')]),
("n-multiline-join",None,[("internal/textutils/escape_multiline.go",'''		if bytes.HasSuffix(trimmedLeft, doubleSpace) {
			// We already have "  " so adding a "\\n" is enough
			output = append(output, trimmedLeft...)
			output = append(output, newlineBreak...)
			continue
		} else {
			// We *prefer* having a hard-line-break "  \\n"
			output = append(output, trimmedLeft...)
			output = append(output, hardLineBreak...)
			continue
		}
''','''		ending := hardLineBreak
		if bytes.HasSuffix(trimmedLeft, doubleSpace) {
			ending = newlineBreak
		}
		output = append(output, trimmedLeft...)
		output = append(output, ending...)
''')]),
]
