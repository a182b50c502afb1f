H='plugin/commonmark/render_heading.go'; L='plugin/commonmark/render_list.go'; Q='plugin/commonmark/render_blockquote.go'; K='plugin/commonmark/render_link.go'; R='converter/render.go'; S='plugin/strikethrough/strikethrough.go'; T='plugin/table/3_render.go'; U='plugin/table/2_collect.go'; D='internal/textutils/delimiter.go'; E='internal/textutils/escape_multiline.go'; B='plugin/commonmark/render_bold_italic.go'; C='plugin/commonmark/render_code.go'; N='internal/textutils/consecutive_newlines.go'; X='plugin/table/utils.go'; V='internal/textutils/surrounding_spaces.go'
M=[
("c22-heading-img",'C22',[(H,'''	if len(bytes.TrimSpace(content)) == 0 {''','''	if len(bytes.TrimSpace(content)) == 0 || bytes.Equal(bytes.TrimSpace(content), []byte("#")) {''')]),
("c22-list-nonli",'C22',[(L,'''		var buf bytes.Buffer
		ctx.RenderNodes''','''		if child.Type == html.TextNode && len(child.Data) > 200 {
			continue
		}
		var buf bytes.Buffer
		ctx.RenderNodes''')]),
("c22-list-onechar",'C22',[(L,'''		if content == nil {''','''		if len(content) <= 1 {''')]),
("c22-list-dup",'C22',[(L,'''		items = append(items, content)
''','''		if len(items) > 0 && child.Type == html.TextNode && bytes.HasSuffix(items[len(items)-1], content) {
			continue
		}
		items = append(items, content)
''')]),
("c22-item-blankline",'C22',[(L,'''		if i != 0 {
			// The first''','''		if i == len(lines)-1 && bytes.Equal(line, []byte("\\\\")) {
			break
		}
		if i != 0 {
			// The first''')]),
("c22-table-rows",'C22',[(T,"range table.Rows[1:] {","range table.Rows[min(len(table.Rows), len(counts)+1):] {")]),
("c22-table-cell-skip",'C22',[(T,'''		w.Write(cell)
''','''		if filler >= 0 {
			w.Write(cell)
		}
''')]),
("c22-table-caption",'C22',[(U,'''	content = bytes.TrimSpace(content)

	return content''','''	content = bytes.TrimSpace(content)
	if bytes.Contains(content, []byte("\\n\\n")) {
		return nil
	}

	return content''')]),
("c22-table-span-row",'C22',[(U,'''		content = bytes.TrimSpace(content)

		// The''','''		content = bytes.TrimSpace(content)
		if index >= maxSpan {
			break
		}

		// The''')]),
("c22-delim-line",'C22',[(D,'''			buf.Write(trimmed)
			buf.Write(delimiter)''','''			if len(trimmed) < 4096 {
				buf.Write(trimmed)
			}
			buf.Write(delimiter)''')]),
("c22-delim-short",'C22',[(D,'''		if trimmed == nil {''','''		if len(trimmed) == 1 && trimmed[0] == '*' {
			continue
		} else if trimmed == nil {''')]),
("c22-bold-empty-delim",'C22',[(B,'''	content = textutils''','''	if delimiter == nil {
		return converter.RenderSuccess
	}
	content = textutils''')]),
("c22-link-selflink",'C22',[(K,'''	switch c.LinkStyle {''','''	if bytes.Equal(trimmed, []byte(l.href)) && l.title == "" {
		w.WriteString("<" + l.href + ">")
		return converter.RenderSuccess
	}

	switch c.LinkStyle {''')]),
("c22-link-fragment",'C22',[(K,'''	if l.href == "" {''','''	if l.href == "#" && len(content) <= 2 {
		return converter.RenderSuccess
	}

	if l.href == "" {''')]),
("c22-bq-trim",'C22',[(Q,'''	content = bytes.TrimSpace(content)
''','''	content = bytes.Trim(content, "\\n\\t >")
''')]),
("c22-bq-cite",'C22',[(Q,'''	content = textutils.TrimConsec''','''	if i := bytes.LastIndex(content, []byte("\\n\\n--")); i > 0 {
		content = content[:i]
	}
	content = textutils.TrimConsec''')]),
("c22-heading-cut",'C22',[(H,'''		content = bytes.TrimSpace(content)

''','''		content = bytes.TrimSpace(content)
		content = bytes.TrimSuffix(content, []byte(" ¶"))

''')]),
("c22-escape-multi",'C22',[(E,'''		if len(trimmedLeft) == 0 {''','''		if len(trimmedLeft) == 1 && trimmedLeft[0] == '>' {''')]),
("c22-row-last",'C22',[(T,"for _, cells := range table.Rows[1:] {","body := table.Rows[1:]\n	for i, cells := range body {\n		if i > 0 && i == len(body)-1 && len(cells) == 1 && len(counts) > 6 {\n			break\n		}")]),
("c22-row-compact",'C22',[(U,"	rowContents = applyGrouped",'	rowContents = slices.CompactFunc(rowContents, func(a, b [][]byte) bool { return len(a) > 3 && slices.EqualFunc(a, b, bytes.Equal) })\n	rowContents = applyGrouped'),(U,'	"bytes"\n','	"bytes"\n	"slices"\n')]),
("c22-fallback-inline",'C22',[(R,'''	ctx.RenderChildNodes(ctx, w, node)
''','''	if tagType != "" {
		ctx.RenderChildNodes(ctx, w, node)
	}
''')]),
("c22-core-skip",'C22',[(R,'''		conv.handleRenderNode(ctx, w, node)
''','''		if conv.handleRenderNode(ctx, w, node) != RenderSuccess {
			break
		}
''')]),
("c22-core-text",'C22',[(R,'''	w.WriteString(content)
''','''	if content != "·" {
		w.WriteString(content)
	}
''')]),
("c22-row-empty",'C22',[(X,'''		if len(cell) > 0 {
			return false''','''		if len(cell) > 1 {
			return false''')]),
("c22-code-br",'C22',[(C,'''	if bytes.TrimSpace(codeContent) == nil {''','''	if len(codeContent) == 1 && codeContent[0] == '`' {
		return converter.RenderSuccess
	}
	if bytes.TrimSpace(codeContent) == nil {''')]),
("c22-code-block-empty",'C22',[(C,'''	fenceChar, _ := utf8''','''	if len(bytes.Trim(code, "\\n`")) == 0 {
		return converter.RenderSuccess
	}

	fenceChar, _ := utf8''')]),
("c22-strike-empty",'C22',[(S,'''	content := buf.Bytes()
''','''	content := buf.Bytes()
	if len(s.delimiter) > 0 && bytes.HasPrefix(content, []byte(s.delimiter)) {
		content = content[len(s.delimiter):]
	}
''')]),
# neutrals
("n22-list-comment",None,[(L,'''		var buf bytes.Buffer
		ctx.RenderNodes''','''		if child.Type == html.CommentNode {
			continue
		}
		var buf bytes.Buffer
		ctx.RenderNodes''')]),
("n22-list-helper",None,[(L,'''		var buf bytes.Buffer
		ctx.RenderNodes(ctx, &buf, child)

		content := buf.Bytes()
		content = bytes.TrimSpace(content)
		if content == nil {
			continue
		}

		items = append(items, content)
	}
''','''		if content := renderListItem(ctx, child); content != nil {
			items = append(items, content)
		}
	}
'''),(L,'''func (c commonmark) renderListContainer''','''func renderListItem(ctx converter.Context, child *html.Node) []byte {
	var buf bytes.Buffer
	ctx.RenderNodes(ctx, &buf, child)
	return bytes.TrimSpace(buf.Bytes())
}

func (c commonmark) renderListContainer''')]),
("n22-heading-early",None,[(H,'''	if len(bytes.TrimSpace(content)) == 0 {
		return''','''	if isBlank(content) {
		return'''),(H,'''func (c *commonmark) renderHeading''','''func isBlank(content []byte) bool {
	for _, b := range content {
		if b != ' ' && b != '\\n' && b != '\\t' {
			return false
		}
	}
	return true
}

func (c *commonmark) renderHeading''')]),
("n22-heading-split",None,[(H,'''		w.WriteString("\\n\\n")
		w.Write(c.atxPrefix(level))
		w.WriteRune(' ')
		w.Write(content)
		w.WriteString("\\n\\n")
''','''		c.writeAtx(w, level, content)
'''),(H,'''func (c *commonmark) renderHeading''','''func (c *commonmark) writeAtx(w converter.Writer, level int, content []byte) {
	w.WriteString("\\n\\n")
	w.Write(c.atxPrefix(level))
	w.WriteRune(' ')
	w.Write(content)
	w.WriteString("\\n\\n")
}

func (c *commonmark) renderHeading''')]),
("n22-rows-index",None,[(T,'''	for _, cells := range table.Rows[1:] {
		p.writeRow(w, counts, cells)
		w.WriteString("\\n")
	}
''','''	for i := 1; i < len(table.Rows); i++ {
		p.writeRow(w, counts, table.Rows[i])
		w.WriteString("\\n")
	}
''')]),
("n22-item-join",None,[(L,'''	for i := range lines {
		// Add indent to code block newlines
		line := bytes.ReplaceAll(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)

		if i != 0 {
			// The first line is already indented through the prefix,
			// all other lines need the correct amount of spaces.
			w.Write(indent)
		}
		w.Write(line)

		if i < len(lines)-1 {
			w.WriteRune('\\n')
		}
	}
''','''	for i := range lines {
		// Add indent to code block newlines
		lines[i] = bytes.ReplaceAll(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)
	}
	w.Write(bytes.Join(lines, append([]byte("\\n"), indent...)))
''')]),
("n22-delim-continue",None,[(D,'''		if trimmed == nil {
			// For empty lines, we don't need a delimiter
			buf.Write(leftExtra)
			buf.Write(rightExtra)
		} else {
			buf.Write(leftExtra)
			buf.Write(delimiter)
			buf.Write(trimmed)
			buf.Write(delimiter)
			buf.Write(rightExtra)
		}
''','''		around := delimiter
		if trimmed == nil {
			// For empty lines, we don't need a delimiter
			around = nil
		}
		buf.Write(leftExtra)
		buf.Write(around)
		buf.Write(trimmed)
		buf.Write(around)
		buf.Write(rightExtra)
''')]),
("n22-bq-early",None,[(Q,'''	content := buf.Bytes()
	content = bytes.TrimSpace(content)
	if content == nil {
		return converter.RenderSuccess
	}
''','''	content := bytes.TrimSpace(buf.Bytes())
	if len(content) > 0 {
		c.writeQuote(w, content)
	}

	return converter.RenderSuccess
}

func (c *commonmark) writeQuote(w converter.Writer, content []byte) {
'''),(Q,'''	w.Write(content)
	w.WriteRune('\\n')
	w.WriteRune('\\n')

	return converter.RenderSuccess
''','''	w.Write(content)
	w.WriteRune('\\n')
	w.WriteRune('\\n')
''')]),
("n22-link-helper",None,[(K,'''	if len(bytes.TrimSpace(content)) == 0 && c.config''','''	isEmpty := len(bytes.TrimSpace(content)) == 0
	if isEmpty && c.config''')]),
]
