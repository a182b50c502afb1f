E='converter/escape.go'; B='plugin/base/base.go'; K='plugin/commonmark/commonmark.go'; R='converter/render.go'; X='converter/ctx.go'
CO='plugin/commonmark/render_code.go'; CC='internal/textutils/collapse_code.go'; H='plugin/commonmark/render_heading.go'; L='plugin/commonmark/render_link.go'
T='plugin/table/2_collect.go'; ML='internal/textutils/escape_multiline.go'
IMPH=('import (\n\t"bytes"\n','import (\n\t"bytes"\n\tstdhtml "html"\n')
M=[
# C13
("c13-no-gt",'C13',[(B,'''	">", "&gt;",
''','')]),
("c13-no-lt",'C13',[(B,'''	"<", "&lt;",
''','')]),
("c13-first-only",'C13',[(B,'''	content = characterEntityReplacer.Replace(content)
''','''	content = strings.Replace(content, "<", "&lt;", 1)
	content = strings.Replace(content, ">", "&gt;", -1)
''')]),
("c13-short",'C13',[(B,'''	content = characterEntityReplacer.Replace(content)
''','''	if len(content) > 1 {
		content = characterEntityReplacer.Replace(content)
	}
''')]),
("c13-tag-like",'C13',[(B,'''	content = characterEntityReplacer.Replace(content)
''','''	if strings.Contains(content, "<") && strings.Contains(content, ">") {
		content = characterEntityReplacer.Replace(content)
	}
''')]),
("c13-space-kept",'C13',[(B,'''	content = characterEntityReplacer.Replace(content)
''','''	parts := strings.Split(content, "< ")
	for i, p := range parts {
		parts[i] = characterEntityReplacer.Replace(p)
	}
	content = strings.Join(parts, "< ")
''')]),
("c13-link-decode",'C13',[(K,'''	if isEnabled, ok := ctx.Value("is_inside_link").(bool); ok && isEnabled {
		content =''','''	if isEnabled, ok := ctx.Value("is_inside_link").(bool); ok && isEnabled {
		content = strings.ReplaceAll(content, "&lt;", "<")
		content ='''),]),
("c13-mode-off",'C13',[(R,'''	content := node.Data

''','''	content := node.Data
	if conv.escapeMode == EscapeModeDisabled {
		w.WriteString(content)
		return RenderSuccess
	}

''')]),
("c13-raw-fallback",'C13',[(R,'''	ctx.RenderChildNodes(ctx, w, node)
''','''	if c := node.FirstChild; c != nil && c == node.LastChild && c.Type == html.TextNode && tagName == "span" {
		w.WriteString(c.Data)
	} else {
		ctx.RenderChildNodes(ctx, w, node)
	}
''')]),
("c13-caption-raw",'C13',[(T,'''	var buf bytes.Buffer
	ctx.RenderNodes(ctx, &buf, captionNode)
''','''	var buf bytes.Buffer
	buf.WriteString(dom.CollectText(captionNode))
''')]),
("c13-heading-raw",'C13',[(H,'''	content := buf.Bytes()
''','''	content := buf.Bytes()
	if n.FirstChild != nil && n.FirstChild == n.LastChild && n.FirstChild.Type == html.TextNode && len(n.FirstChild.Data) < 3 {
		content = []byte(n.FirstChild.Data)
	}
''')]),
("c13-heading-decode",'C13',[(H,'''		content = bytes.TrimSpace(content)

		// A''','''		content = bytes.TrimSpace(content)
		content = bytes.ReplaceAll(content, []byte("&gt;"), []byte(">"))

		// A''')]),
("c13-post-decode",'C13',[(B,'''	result = ctx.UnEscapeContent(result)
	return result''','''	result = ctx.UnEscapeContent(result)
	result = bytes.ReplaceAll(result, []byte("-&gt;"), []byte("->"))
	return result''')]),
("c13-link-decode2",'C13',[(L,'''	content := buf.Bytes()
''','''	content := []byte(stdhtml.UnescapeString(buf.String()))
'''),(L,)+IMPH]),
("c13-cell-decode",'C13',[(T,'''		content = ctx.UnEscapeContent(content)
''','''		content = ctx.UnEscapeContent(content)
		content = []byte(stdhtml.UnescapeString(string(content)))
'''),(T,)+IMPH]),
("c13-not-registered",'C13',[(B,'''	conv.Register.TextTransformer(b.handleTextTransform, converter.PriorityStandard)
''','''	if len(b.Name()) > 10 {
		conv.Register.TextTransformer(b.handleTextTransform, converter.PriorityStandard)
	}
''')]),
# C14
("c14-keep-twice",'C14',[(E,'''		if changes[index] == actionEscape {
			newChars = append(newChars, '\\\\')
		}
''','''		if changes[index] == actionEscape {
			newChars = append(newChars, '\\\\')
		} else if index+1 < len(chars) && chars[index+1] == placeholderByte {
			newChars = append(newChars, char)
		}
''')]),
("c14-keep-end",'C14',[(E,'''		if char != placeholderByte {
			newChars''','''		if char != placeholderByte || index == len(chars)-1 {
			newChars''')]),
("c14-no-handlers",'C14',[(E,'''	changes := make([]uint8, len(chars))
''','''	if len(chars) < 2 {
		return chars
	}
	changes := make([]uint8, len(chars))
''')]),
("c14-unescape-limit",'C14',[(E,'''	changes := make([]uint8, len(chars))
''','''	if len(chars) > 1<<20 {
		return chars
	}
	changes := make([]uint8, len(chars))
''')]),
("c14-first-newline",'C14',[(K,'''	return bytes.ReplaceAll(
		content,
		[]byte(string(marker.BytesMarkerCodeBlockNewline)),
		[]byte("\\n"),
	)''','''	return bytes.Replace(
		content,
		[]byte(string(marker.BytesMarkerCodeBlockNewline)),
		[]byte("\\n"),
		1000,
	)''')]),
("c14-fence-only",'C14',[(K,'''	return bytes.ReplaceAll(
		content,
''','''	if !bytes.Contains(content, []byte(cm.CodeBlockFence)) {
		return content
	}
	return bytes.ReplaceAll(
		content,
''')]),
("c14-not-registered",'C14',[(K,'''	conv.Register.PostRenderer(cm.handlePostRenderCodeBlockNewline, converter.PriorityLate)
''','''	if !cm.DisableListEndComment {
		conv.Register.PostRenderer(cm.handlePostRenderCodeBlockNewline, converter.PriorityLate)
	}
''')]),
("c14-disabled-marks",'C14',[(E,'''	if conv.escapeMode == EscapeModeDisabled {
		return chars
	}

	newChars := make([]byte, 0, len(chars))
	for index := 0''','''	newChars := make([]byte, 0, len(chars))
	for index := 0''')]),
("c14-post-cond",'C14',[(B,'''	result = ctx.UnEscapeContent(result)
	return result''','''	if len(result) > 1 {
		result = ctx.UnEscapeContent(result)
	}
	return result''')]),
("c14-new-marker",'C14',[(CO,'''	w.Write(code)
	w.WriteRune('\\n')
''','''	if len(code) == 0 {
		w.WriteRune('\\uF001')
	}
	w.Write(code)
	w.WriteRune('\\n')
''')]),
("c14-marker-tab",'C14',[(CO,'''	w.WriteString("\\n\\n")
	w.WriteString(fence)
	w.WriteString(infoString)''','''	code = bytes.ReplaceAll(code, []byte("\\t"), []byte("\\uF003"))

	w.WriteString("\\n\\n")
	w.WriteString(fence)
	w.WriteString(infoString)''')]),
("c14-wrong-marker",'C14',[(K,'''		[]byte(string(marker.BytesMarkerCodeBlockNewline)),
		[]byte("\\n"),''','''		[]byte("\\n"+string(marker.BytesMarkerCodeBlockNewline)),
		[]byte("\\n\\n"),''')]),
("c14-back",'C14',[(K,'''		[]byte("\\n"),
	)
}''','''		append([]byte{'\\n'}, marker.BytesMarkerCodeBlockNewline[:0:0]...),
	)
}
func (cm commonmark) handlePostFill(ctx converter.Context, content []byte) []byte {
	return bytes.ReplaceAll(content, []byte("```\\n```"), []byte("```\\n\\uF002\\n```"))
}'''),(K,'''	conv.Register.PostRenderer(cm.handlePostRenderCodeBlockNewline, converter.PriorityLate)
''','''	conv.Register.PostRenderer(cm.handlePostRenderCodeBlockNewline, converter.PriorityLate)
	conv.Register.PostRenderer(cm.handlePostFill, converter.PriorityLate+1)
''')]),
# C39
("c39-disabled-backslash",'C39',[(E,'''	if conv.escapeMode == EscapeModeDisabled {
		return chars
	}

	newChars''','''	if conv.escapeMode == EscapeModeDisabled {
		return bytes.ReplaceAll(chars, []byte(`\\`), []byte(`\\\\`))
	}

	newChars'''),(E,'''import (
''','''import (
	"bytes"
''')]),
("c39-link-bracket",'C39',[(K,'''		content = strings.Replace(content, string(marker.MarkerEscaping)+`]`, `\\]`, -1)
''','''		content = strings.Replace(content, string(marker.MarkerEscaping)+`]`, `]`, -1)
		content = strings.Replace(content, `]`, `\\]`, -1)
''')]),
("c39-cell-pipe",'C39',[(T,'''		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`\\|`), -1)
''','''		content = bytes.Replace(content, []byte{byte(marker.MarkerEscaping), '|'}, []byte(`|`), -1)
		content = bytes.Replace(content, []byte{'|'}, []byte(`\\|`), -1)
''')]),
("c39-heading-hash",'C39',[(H,'''	if len(s) >= 2 && s[len(s)-2] == marker.BytesMarkerEscaping[0] {
		s[len(s)-2] = '\\\\'
	}
''','''	if len(s) >= 2 && s[len(s)-2] == marker.BytesMarkerEscaping[0] {
		s[len(s)-2] = '\\\\'
	} else {
		s[len(s)-1] = '\\\\'
		s = append(s, '#')
	}
''')]),
("c39-post-hash",'C39',[(B,'''	result = ctx.UnEscapeContent(result)
	return result''','''	result = ctx.UnEscapeContent(result)
	result = bytes.ReplaceAll(result, []byte("\\n#\\n"), []byte("\\n\\\\#\\n"))
	return result''')]),
("c39-text-dollar",'C39',[(B,'''	content = characterEntityReplacer.Replace(content)
''','''	content = characterEntityReplacer.Replace(content)
	content = strings.ReplaceAll(content, "$$", `\\$\\$`)
''')]),
("c39-drop-cr",'C39',[(E,'''		r, _ := utf8.DecodeRune(chars[index:])
''','''		if chars[index] == '\\r' {
			continue
		}
		r, _ := utf8.DecodeRune(chars[index:])
''')]),
("c39-drop-del",'C39',[(E,'''		if char != placeholderByte {
			newChars = append(newChars, char)
			continue
		}
''','''		if char == 127 {
			continue
		}
		if char != placeholderByte {
			newChars = append(newChars, char)
			continue
		}
''')]),
("c39-nbsp",'C39',[(E,'''		isMarkdownChar := conv''','''		if r == '\\u00a0' {
			newChars = append(newChars, []byte("&nbsp;")...)
			index++
			continue
		}
		isMarkdownChar := conv''')]),
("c39-ctx",'C39',[(X,'''	return c.conv.escapeContent(content)''','''	if len(content) == 1 {
		return append([]byte{placeholderByte}, content...)
	}
	return c.conv.escapeContent(content)''')]),
("c39-entity",'C39',[(E,'''			newChars = append(newChars, '\\\\')
''','''			if index+1 < len(chars) && chars[index+1] == '$' {
				newChars = append(newChars, []byte("&#36;")...)
				continue
			}
			newChars = append(newChars, '\\\\')
''')]),
# C31
("c31-escape",'C31',[(CO,'''func (c *commonmark) renderInlineCode(_ converter.Context,''','''func (c *commonmark) renderInlineCode(ctx converter.Context,'''),(CO,'''	codeContent, _ := getCodeWithoutTags(n)
''','''	codeContent, _ := getCodeWithoutTags(n)
	codeContent = ctx.EscapeContent(codeContent)
''')]),
("c31-entity",'C31',[(CO,'''	code := string(codeContent)
''','''	code := strings.ReplaceAll(string(codeContent), "<", "&lt;")
''')]),
("c31-children",'C31',[(CO,'''func (c *commonmark) renderInlineCode(_ converter.Context,''','''func (c *commonmark) renderInlineCode(ctx converter.Context,'''),(CO,'''	codeContent, _ := getCodeWithoutTags(n)
''','''	codeContent, _ := getCodeWithoutTags(n)
	if dom.NodeName(n) == "kbd" {
		var buf bytes.Buffer
		ctx.RenderChildNodes(ctx, &buf, n)
		codeContent = buf.Bytes()
	}
''')]),
("c31-trim-block",'C31',[(CO,'''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	code = bytes.TrimRight(code, "\\n")
''')]),
("c31-trim-space",'C31',[(CO,'''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
	code = bytes.TrimRight(code, " ")
''')]),
("c31-leading",'C31',[(CO,'''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
	code = bytes.TrimPrefix(code, []byte("\\n"))
''')]),
("c31-tabs",'C31',[(CO,'''	fenceChar, _ := utf8''','''	code = bytes.ReplaceAll(code, []byte("\\t"), []byte("    "))
	fenceChar, _ := utf8''')]),
("c31-crlf",'C31',[(CO,'''	fenceChar, _ := utf8''','''	code = bytes.ReplaceAll(code, []byte("\\r"), nil)
	fenceChar, _ := utf8''')]),
("c31-cut",'C31',[(CC,'''	content = bytes.TrimSpace(content)
''','''	content = bytes.TrimSpace(content)
	content = bytes.TrimSuffix(content, []byte(";"))
''')]),
("c31-drop",'C31',[(CC,'''		if count > 1 {
			continue
		}
''','''		if count > 1 || char == 0x0b || char == 0x7f {
			continue
		}
''')]),
("c31-trim-text",'C31',[(CO,'''			buf.WriteString(n.Data)
			return''','''			buf.WriteString(strings.Trim(n.Data, "\\n"))
			return''')]),
("c31-skip-blank",'C31',[(CO,'''			buf.WriteString(n.Data)
			return''','''			if strings.TrimSpace(n.Data) != "" {
				buf.WriteString(n.Data)
			}
			return''')]),
("c31-skip-button",'C31',[(CO,'''n.Data == "script" || n.Data == "textarea")''','''n.Data == "script" || n.Data == "textarea" || n.Data == "span")''')]),
("c31-first-child",'C31',[(CO,'''		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
		}
	}

	f(startNode)''','''		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
			if n.Data == "a" {
				break
			}
		}
	}

	f(startNode)''')]),
("c31-lower",'C31',[(CO,'''	code := string(codeContent)
''','''	code := string(codeContent)
	if dom.NodeName(n) == "kbd" {
		code = strings.Title(code)
	}
''')]),
("c31-pipe",'C31',[(CO,'''	code := string(codeContent)
''','''	code := string(codeContent)
	if n.Parent != nil && n.Parent.Data == "td" {
		code = strings.ReplaceAll(code, "|", `\\|`)
	}
''')]),
("c31-marker-keep",'C31',[(CO,'''	code = bytes.ReplaceAll(code, []byte("\\n"), marker.BytesMarkerCodeBlockNewline)
''','''	if len(code) > 1000 {
		code = bytes.ReplaceAll(code, []byte("\\n"), marker.BytesMarkerCodeBlockNewline)
	}
''')]),
("c31-marker-lead",'C31',[(CO,'''	code = bytes.ReplaceAll(code, []byte("\\n"), marker.BytesMarkerCodeBlockNewline)
''','''	code = bytes.ReplaceAll(code, []byte("\\n\\n"), append(marker.BytesMarkerCodeBlockNewline, marker.BytesMarkerCodeBlockNewline...))
''')]),
# neutrals
("n13-replaceall",None,[(B,'''	content = characterEntityReplacer.Replace(content)
''','''	content = strings.ReplaceAll(content, "<", "&lt;")
	content = strings.ReplaceAll(content, ">", "&gt;")
'''),(B,'''var characterEntityReplacer = strings''','''var _ = strings''')]),
("n13-guarded",None,[(B,'''	content = characterEntityReplacer.Replace(content)
''','''	if strings.ContainsAny(content, "<>") {
		content = characterEntityReplacer.Replace(content)
	}
''')]),
("n13-loop",None,[(B,'''	content = characterEntityReplacer.Replace(content)
''','''	var sb strings.Builder
	for _, r := range content {
		switch r {
		case '<':
			sb.WriteString("&lt;")
		case '>':
			sb.WriteString("&gt;")
		default:
			sb.WriteRune(r)
		}
	}
	content = sb.String()
''')]),
("n13-bytes",None,[(B,'''	content = string(ctx.EscapeContent([]byte(content)))

	return content''','''	escaped := ctx.EscapeContent([]byte(content))
	return string(escaped)''')]),
("n13-unescape-helper",None,[(E,'''	newChars := make([]byte, 0, len(chars))
	for index, char := range chars {
		if char != placeholderByte {
			newChars = append(newChars, char)
			continue
		}

		// What to do with this placeholder? Should we escape or not?
		if changes[index] == actionEscape {
			newChars = append(newChars, '\\\\')
		}
	}
	return newChars
}''','''	return applyChanges(chars, changes)
}

func applyChanges(chars []byte, changes []uint8) []byte {
	newChars := make([]byte, 0, len(chars))
	for index, char := range chars {
		if char == placeholderByte {
			// What to do with this placeholder? Should we escape or not?
			if changes[index] == actionEscape {
				newChars = append(newChars, '\\\\')
			}
		} else {
			newChars = append(newChars, char)
		}
	}
	return newChars
}''')]),
("n13-unescape-switch",None,[(E,'''		if char != placeholderByte {
			newChars = append(newChars, char)
			continue
		}

		// What to do with this placeholder? Should we escape or not?
		if changes[index] == actionEscape {
			newChars = append(newChars, '\\\\')
		}
''','''		switch {
		case char != placeholderByte:
			newChars = append(newChars, char)
		case changes[index] == actionEscape:
			newChars = append(newChars, '\\\\')
		}
''')]),
("n13-unescape-buffer",None,[(E,'''	newChars := make([]byte, 0, len(chars))
	for index, char := range chars {
		if char != placeholderByte {
			newChars = append(newChars, char)
			continue
		}

		// What to do with this placeholder? Should we escape or not?
		if changes[index] == actionEscape {
			newChars = append(newChars, '\\\\')
		}
	}
	return newChars
''','''	var out bytes.Buffer
	for index := 0; index < len(chars); index++ {
		char := chars[index]
		if char != placeholderByte {
			out.WriteByte(char)
			continue
		}
		if changes[index] == actionEscape {
			out.WriteByte('\\\\')
		}
	}
	return out.Bytes()
'''),(E,'import (\n','import (\n\t"bytes"\n')]),
("n13-escape-buffer",None,[(E,'''		isMarkdownChar := conv.checkIsEscapedChar(r)
		if isMarkdownChar {
			newChars = append(newChars, placeholderByte, chars[index])
		} else {
			newChars = append(newChars, chars[index])
		}
''','''		if conv.checkIsEscapedChar(r) {
			newChars = append(newChars, placeholderByte)
		}
		newChars = append(newChars, chars[index])
''')]),
("n13-escape-helper",None,[(E,'''		isMarkdownChar := conv.checkIsEscapedChar(r)
		if isMarkdownChar {
			newChars = append(newChars, placeholderByte, chars[index])
		} else {
			newChars = append(newChars, chars[index])
		}
''','''		newChars = conv.appendMarked(newChars, chars[index], r)
'''),(E,'','''
func (conv *Converter) appendMarked(dst []byte, char byte, r rune) []byte {
	if conv.checkIsEscapedChar(r) {
		dst = append(dst, placeholderByte)
	}
	return append(dst, char)
}
''')]),
("n13-mode-helper",None,[(E,'''	if conv.escapeMode == EscapeModeDisabled {
		return chars
	}
''','''	if !conv.escapes() {
		return chars
	}
''',2),(E,'','''
func (conv *Converter) escapes() bool { return conv.escapeMode != EscapeModeDisabled }
''')]),
("n13-null-switch",None,[(E,'''		if chars[index] == '\\u0000' {
			// For security reasons, the Unicode character U+0000 must be replaced with the REPLACEMENT CHARACTER (U+FFFD).
			newChars = append(newChars, []byte(string('\\ufffd'))...)
			continue
		}
''','''		char := chars[index]
		if char == 0 {
			newChars = utf8.AppendRune(newChars, utf8.RuneError)
			continue
		}
''')]),
("n13-newline-const",None,[(K,'''	return bytes.ReplaceAll(
		content,
		[]byte(string(marker.BytesMarkerCodeBlockNewline)),
		[]byte("\\n"),
	)''','''	if !bytes.ContainsRune(content, marker.MarkerCodeBlockNewline) {
		return content
	}
	return bytes.Replace(content, []byte(string(marker.MarkerCodeBlockNewline)), []byte{'\\n'}, -1)''')]),
("n13-newline-func",None,[(K,'''	return bytes.ReplaceAll(
		content,
		[]byte(string(marker.BytesMarkerCodeBlockNewline)),
		[]byte("\\n"),
	)''','''	return restoreNewlines(content)'''),(K,'','''
func restoreNewlines(content []byte) []byte {
	lines := bytes.Split(content, marker.BytesMarkerCodeBlockNewline)
	return bytes.Join(lines, []byte("\\n"))
}
''')]),
("n13-code-helper",None,[(CO,'''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	code = bytes.TrimSuffix(code, []byte("\\n"))
''')]),
("n13-code-string",None,[(CO,'''	code = bytes.ReplaceAll(code, []byte("\\n"), marker.BytesMarkerCodeBlockNewline)

	w.WriteString("\\n\\n")
	w.WriteString(fence)
	w.WriteString(infoString)
	w.WriteRune('\\n')
	w.Write(code)''','''	text := strings.ReplaceAll(string(code), "\\n", string(marker.MarkerCodeBlockNewline))

	w.WriteString("\\n\\n")
	w.WriteString(fence)
	w.WriteString(infoString)
	w.WriteRune('\\n')
	w.WriteString(text)''')]),
("n13-collect-rec",None,[(CO,'''	var buf bytes.Buffer
	var infoString string

	var f func(*html.Node)
	f = func(n *html.Node) {
''','''	var buf bytes.Buffer
	infoString := collectCode(&buf, startNode, "")
	return buf.Bytes(), infoString
}

func collectCode(buf *bytes.Buffer, n *html.Node, infoString string) string {
'''),(CO,'''"textarea") {
			return
		}''','''"textarea") {
			return infoString
		}'''),(CO,'''			buf.WriteString(n.Data)
			return
		}

		for c := n.FirstChild; c != nil; c = c.NextSibling {
			f(c)
		}
	}

	f(startNode)

	return buf.Bytes(), infoString
''','''			buf.WriteString(n.Data)
			return infoString
		}

		for c := n.FirstChild; c != nil; c = c.NextSibling {
			infoString = collectCode(buf, c, infoString)
		}
	return infoString
''')]),
("n13-collapse-single",None,[(CC,'''	content = bytes.ReplaceAll(content, []byte{'\\n'}, []byte{' '})
	content = bytes.ReplaceAll(content, []byte{'\\t'}, []byte{' '})

	content = bytes.TrimSpace(content)

	newChars := make([]byte, 0, len(content))

	var count int
	for _, char := range content {
		if char == ' ' {
			count++
		} else {
			count = 0
		}

		if count > 1 {
			continue
		}
		newChars = append(newChars, char)
	}

	return newChars
''','''	content = bytes.TrimSpace(content)
	newChars := make([]byte, 0, len(content))
	lastSpace := false
	for _, char := range content {
		if char == '\\n' || char == '\\t' {
			char = ' '
		}
		if char == ' ' && lastSpace {
			continue
		}
		lastSpace = char == ' '
		newChars = append(newChars, char)
	}
	return newChars
''')]),
("n13-heading-loop",None,[(H,'''		content = bytes.ReplaceAll(content, []byte("\\n"), []byte(" "))
		content = bytes.ReplaceAll(content, []byte("\\r"), []byte(" "))
''','''		content = bytes.Map(func(r rune) rune {
			if r == '\\n' || r == '\\r' {
				return ' '
			}
			return r
		}, content)
''')]),
("n13-multiline-join",None,[(ML,'''			output = append(output, escapedNoContentLineBreak...)
			continue''','''			output = append(output, '\\\\', '\\n')
			continue''')]),
("n13-multiline-buffer",None,[(ML,'''			output = append(output, escapedNoContentLineBreak...)
			continue''','''			output = append(output, "\\\\\\n"...)
			continue''')]),
("n13-link-markers",None,[(K,'''		content = strings.Replace(content, string(marker.MarkerEscaping)+`]`, `\\]`, -1)
''','''		content = strings.NewReplacer(string(marker.MarkerEscaping)+`]`, `\\]`).Replace(content)
''')]),

("n31-fields",None,[(CC,'''	newChars := make([]byte, 0, len(content))

	var count int
	for _, char := range content {
		if char == ' ' {
			count++
		} else {
			count = 0
		}

		if count > 1 {
			continue
		}
		newChars = append(newChars, char)
	}

	return newChars
''','''	var out bytes.Buffer
	prev := byte('x')
	for i := 0; i < len(content); i++ {
		if content[i] != ' ' || prev != ' ' {
			out.WriteByte(content[i])
		}
		prev = content[i]
	}
	return out.Bytes()
''')]),
("n31-suffix",None,[(CO,'''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	code = bytes.TrimSuffix(code, []byte("\\n"))
''')]),
("n31-last",None,[(CO,'''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	if last := len(code) - 1; last >= 0 && code[last] == '\\n' {
		code = code[:last]
	}
''')]),
("n31-cutsuffix",None,[(CO,'''	if bytes.HasSuffix(code, []byte("\\n")) {
		code = code[:len(code)-1]
	}
''','''	if rest, ok := bytes.CutSuffix(code, []byte("\\n")); ok {
		code = rest
	}
''')]),
("n31-recfn",None,[(CO,'''	var f func(*html.Node)
	f = func(n *html.Node) {
''','''	collectCode(startNode, &buf, &infoString)

	return buf.Bytes(), infoString
}

func collectCode(n *html.Node, buf *bytes.Buffer, info *string) {
	infoString := *info
	defer func() {}()
	{
'''),(CO,'''				infoString = getCodeLanguage(n)
			}
		}
''','''				infoString = getCodeLanguage(n)
				*info = infoString
			}
		}
'''),(CO,'''			f(c)
		}
	}

	f(startNode)

	return buf.Bytes(), infoString
}''','''			collectCode(c, buf, info)
		}
	}
}''')]),
("n31-string",None,[(CO,'''	code := string(codeContent)

	maxCount''','''	code := string(codeContent)
	_ = utf8.RuneError

	maxCount'''),(CO,'''	if strings.HasPrefix(code, "`") {
		code = " " + code
	}
	// Code contains a backtick as last character
	if strings.HasSuffix(code, "`") {
		code = code + " "
	}

	w.WriteString(fence)
	w.WriteString(code)
	w.WriteString(fence)
''','''	before, after := "", ""
	if strings.HasPrefix(code, "`") {
		before = " "
	}
	if code != "" && code[len(code)-1] == '`' {
		after = " "
	}

	w.WriteString(fence + before + code + after + fence)
''')]),
("n31-split",None,[(CO,'''	code = bytes.ReplaceAll(code, []byte("\\n"), marker.BytesMarkerCodeBlockNewline)
''','''	code = bytes.Join(bytes.Split(code, []byte("\\n")), marker.BytesMarkerCodeBlockNewline)
''')]),
]
