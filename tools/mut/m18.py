L='plugin/commonmark/render_list.go'; Q='plugin/commonmark/render_blockquote.go'; X='internal/textutils/prefix_lines.go'
M=[
("c25-q-noprefix-blank",'C25',[(X,'''	for _, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' {''','''	for i, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' && (i+1 >= len(source) || source[i+1] != '\\n') {''')]),
("c25-q-codeonly",'C25',[(Q,'''	content = bytes.ReplaceAll(
		content,
		marker.BytesMarkerCodeBlockNewline,
		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
	)
''','''	_ = marker.BytesMarkerCodeBlockNewline
''')]),
("c25-q-code-once",'C25',[(Q,'''	content = bytes.ReplaceAll(
		content,
		marker.BytesMarkerCodeBlockNewline,
		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
	)''','''	content = bytes.Replace(
		content,
		marker.BytesMarkerCodeBlockNewline,
		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
		100,
	)''')]),
("c25-q-code-space",'C25',[(Q,'''Newline)+"> "),''','''Newline)+"  "),''')]),
("c25-q-short",'C25',[(Q,'''	content = textutils.PrefixLines(content, []byte{'>', ' '})
''','''	if len(content) > 1<<16 {
		content = append([]byte{'>', ' '}, content...)
	} else {
		content = textutils.PrefixLines(content, []byte{'>', ' '})
	}
''')]),
("c25-q-nested",'C25',[(Q,'''	content = textutils.PrefixLines(content, []byte{'>', ' '})
''','''	if !bytes.HasPrefix(content, []byte("> ")) {
		content = textutils.PrefixLines(content, []byte{'>', ' '})
	}
''')]),
("c25-q-already",'C25',[(X,'''		if b == '\\n' {''','''		if b == '\\n' && len(source) > len(repl) && source[0] != repl[0] {''')]),
("c25-q-cr",'C25',[(X,'''		if b == '\\n' {''','''		if b == '\\r' {''')]),
("c25-q-after",'C25',[(Q,'''	w.Write(content)
''','''	w.Write(bytes.ReplaceAll(content, []byte("> ---\\n"), []byte("> ---\\n\\n")))
''')]),
("c25-l-firstonly",'C25',[(L,'''		if i != 0 {''','''		if i == 1 {''')]),
("c25-l-skip2",'C25',[(L,'''		if i != 0 {''','''		if i > 1 {''')]),
("c25-l-code-noindent",'C25',[(L,'''		line := bytes.ReplaceAll(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)
''','''		line := lines[i]
		if i != 0 {
			line = bytes.ReplaceAll(line, marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)
		}
''')]),
("c25-l-code-first",'C25',[(L,'''		line := bytes.ReplaceAll(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)
''','''		line := bytes.Replace(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline, 1)
''')]),
("c25-l-code-hasindent",'C25',[(L,'''		line := bytes.ReplaceAll(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)
''','''		line := lines[i]
		if !bytes.Contains(line, indentedCodeBlockNewline) {
			line = bytes.ReplaceAll(line, marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)
		}
''')]),
("c25-l-width-short",'C25',[(L,'''	indentCount := utf8.RuneCountInString(getPrefix(0))''','''	indentCount := utf8.RuneCountInString(getPrefix(0)) - 1''')]),
("c25-l-width-bullet",'C25',[(L,'''	indentCount := utf8.RuneCountInString(getPrefix(0))''','''	indentCount := utf8.RuneCountInString(getPrefix(0))
	if n.Data == "ul" {
		indentCount = utf8.RuneCountInString(c.BulletListMarker)
	}''')]),
("c25-l-width-min",'C25',[(L,'''	indentCount := utf8.RuneCountInString(getPrefix(0))''','''	indentCount := min(utf8.RuneCountInString(getPrefix(0)), 4)''')]),
("c25-l-width-fixed",'C25',[(L,'''	indentCount := utf8.RuneCountInString(getPrefix(0))''','''	indentCount := 3
	if n.Data == "ul" {
		indentCount = utf8.RuneCountInString(getPrefix(0))
	}''')]),
("c25-l-pad",'C25',[(L,'''		format := `%0` + strconv.Itoa(maxLength) + `d. `
''','''		format := `%d. `
		_ = maxLength
''')]),
("c25-l-pad-first",'C25',[(L,'''		lastIndex := startAt + sliceLength - 1
''','''		lastIndex := startAt + min(sliceLength, 100) - 1
''')]),
("c25-l-single",'C25',[(L,'''		renderMultiLineListItem(w, item, indentCount)
''','''		if len(items) == 1 && len(item) > 1000 {
			w.Write(item)
		} else {
			renderMultiLineListItem(w, item, indentCount)
		}
''')]),
("c25-l-trailing",'C25',[(L,'''	lines := bytes.Split(content, []byte("\\n"))
''','''	lines := bytes.SplitN(content, []byte("\\n"), 500)
''')]),
("c25-l-sep",'C25',[(L,'''	lines := bytes.Split(content, []byte("\\n"))
''','''	lines := bytes.Split(content, []byte("\\n\\n"))
''')]),
("c25-l-directchild",'C25',[(L,'''		ctx.RenderNodes(ctx, &buf, child)
''','''		if child.Type == html.ElementNode && child.Data == "table" {
			ctx.RenderNodes(ctx, w, child)
			continue
		}
		ctx.RenderNodes(ctx, &buf, child)
''')]),
("c25-code-cr",'C25',[('plugin/commonmark/render_code.go','[]byte("\\r"), []byte("\\n"))','[]byte("\\r "), []byte("\\n"))')]),
("c25-pre-cr",'C25',[('plugin/commonmark/render_code.go','	code = bytes.ReplaceAll(code, []byte("\\r"), []byte("\\n"))\n',''),('internal/textutils/collapse_code.go','	content = bytes.TrimSpace(content)','	content = bytes.ReplaceAll(content, []byte{13}, []byte{32})\n	content = bytes.TrimSpace(content)')]),
# neutrals
("n25-q-replace",'C25',[(X,'''	newSlice := make([]byte, 0, len(source))

	newSlice = append(newSlice, repl...)
	for _, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' {
			newSlice = append(newSlice, repl...)
		}

	}

	return newSlice
''','''	s := strings.ReplaceAll(string(source), "\\n", "\\n"+string(repl))
	return []byte(string(repl) + s)
'''),(X,'package textutils\n','package textutils\n\nimport "strings"\n')]),
("n25-q-join",'C25',[(X,'''	newSlice := make([]byte, 0, len(source))

	newSlice = append(newSlice, repl...)
	for _, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' {
			newSlice = append(newSlice, repl...)
		}

	}

	return newSlice
''','''	lines := bytes.Split(source, []byte("\\n"))
	for i := range lines {
		lines[i] = append(append([]byte{}, repl...), lines[i]...)
	}
	return bytes.Join(lines, []byte("\\n"))
'''),(X,'package textutils\n','package textutils\n\nimport "bytes"\n')]),
("n25-q-join2",'C25',[(X,'''	newSlice := make([]byte, 0, len(source))

	newSlice = append(newSlice, repl...)
	for _, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' {
			newSlice = append(newSlice, repl...)
		}

	}

	return newSlice
''','''	lines := bytes.Split(source, []byte("\\n"))
	out := append([]byte{}, repl...)
	sep := append([]byte{'\\n'}, repl...)
	return append(out, bytes.Join(lines, sep)...)
'''),(X,'package textutils\n','package textutils\n\nimport "bytes"\n')]),
("n25-q-buffer",'C25',[(X,'''	newSlice := make([]byte, 0, len(source))

	newSlice = append(newSlice, repl...)
	for _, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' {
			newSlice = append(newSlice, repl...)
		}

	}

	return newSlice
''','''	var buf bytes.Buffer
	for i, line := range bytes.Split(source, []byte("\\n")) {
		if i > 0 {
			buf.WriteByte('\\n')
		}
		buf.Write(repl)
		buf.Write(line)
	}
	return buf.Bytes()
'''),(X,'package textutils\n','package textutils\n\nimport "bytes"\n')]),
("n25-q-atstart",'C25',[(X,'''	newSlice = append(newSlice, repl...)
	for _, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' {
			newSlice = append(newSlice, repl...)
		}

	}
''','''	start := true
	for _, b := range source {
		if start {
			newSlice = append(newSlice, repl...)
		}
		newSlice = append(newSlice, b)
		start = b == '\\n'
	}
	if start {
		newSlice = append(newSlice, repl...)
	}
''')]),
("n25-q-switch",'C25',[(X,'''	for _, b := range source {
		newSlice = append(newSlice, b)
		if b == '\\n' {
			newSlice = append(newSlice, repl...)
		}

	}
''','''	for i := 0; i < len(source); i++ {
		switch source[i] {
		case '\\n':
			newSlice = append(newSlice, '\\n')
			newSlice = append(newSlice, repl...)
		default:
			newSlice = append(newSlice, source[i])
		}
	}
''')]),
("n25-q-inline",'C25',[(Q,'''	content = textutils.PrefixLines(content, []byte{'>', ' '})
''','''	content = []byte("> " + strings.Join(strings.Split(string(content), "\\n"), "\\n> "))
'''),(Q,'import (\n','import (\n	"strings"\n')]),
("n25-q-order",'C25',[(Q,'''	content = textutils.PrefixLines(content, []byte{'>', ' '})

	// The newlines inside of code blocks were replaced by another character,
	// but those lines also need the prefix.
	content = bytes.ReplaceAll(
		content,
		marker.BytesMarkerCodeBlockNewline,
		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
	)
''','''	content = bytes.ReplaceAll(
		content,
		marker.BytesMarkerCodeBlockNewline,
		[]byte(string(marker.MarkerCodeBlockNewline)+"> "),
	)
	content = textutils.PrefixLines(content, []byte{'>', ' '})
''')]),
("n25-l-range",'C25',[(L,'''	for i := range lines {
		// Add indent to code block newlines
		line := bytes.ReplaceAll(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)

		if i != 0 {
			// The first line is already indented through the prefix,
			// all other lines need the correct amount of spaces.
			w.Write(indent)
		}
		w.Write(line)

		if i < len(lines)-1 {
			w.WriteRune('\\n')
		}
	}
''','''	for i, line := range lines {
		if i > 0 {
			w.WriteString("\\n")
			w.Write(indent)
		}
		w.Write(bytes.ReplaceAll(line, marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline))
	}
''')]),
("n25-l-join",'C25',[(L,'''	for i := range lines {
		// Add indent to code block newlines
		line := bytes.ReplaceAll(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)

		if i != 0 {
			// The first line is already indented through the prefix,
			// all other lines need the correct amount of spaces.
			w.Write(indent)
		}
		w.Write(line)

		if i < len(lines)-1 {
			w.WriteRune('\\n')
		}
	}
''','''	joined := bytes.Join(lines, append([]byte("\\n"), indent...))
	w.Write(bytes.ReplaceAll(joined, marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline))
''')]),
("n25-l-replace",'C25',[(L,'''	for i := range lines {
		// Add indent to code block newlines
		line := bytes.ReplaceAll(lines[i], marker.BytesMarkerCodeBlockNewline, indentedCodeBlockNewline)

		if i != 0 {
			// The first line is already indented through the prefix,
			// all other lines need the correct amount of spaces.
			w.Write(indent)
		}
		w.Write(line)

		if i < len(lines)-1 {
			w.WriteRune('\\n')
		}
	}
''','''	_ = lines
	pad := strings.Repeat(" ", indentCount)
	s := strings.ReplaceAll(string(content), "\\n", "\\n"+pad)
	s = strings.ReplaceAll(s, string(marker.BytesMarkerCodeBlockNewline), string(indentedCodeBlockNewline))
	w.WriteString(s)
'''),(L,'import (\n','import (\n	"strings"\n')]),
("n25-l-blank",'C25',[(L,'''		if i != 0 {
			// The first''','''		if i != 0 && len(line) != 0 {
			// The first''')]),
("n25-l-perindent",'C25',[(L,'''		w.WriteString(getPrefix(i))
''','''		prefix := getPrefix(i)
		indentCount = utf8.RuneCountInString(prefix)
		w.WriteString(prefix)
''')]),
("n25-l-width-len",'C25',[(L,'''	indentCount := utf8.RuneCountInString(getPrefix(0))''','''	indentCount := len([]rune(getPrefix(0)))''')]),
("n25-l-star",'C25',[(L,'''		format := `%0` + strconv.Itoa(maxLength) + `d. `
		return fmt.Sprintf(format, currentIndex)''','''		return fmt.Sprintf("%0*d. ", maxLength, currentIndex)''')]),
("n25-l-loop",'C25',[(L,'''	indent := bytes.Repeat([]byte(" "), indentCount)
''','''	var indent []byte
	for k := 0; k < indentCount; k++ {
		indent = append(indent, ' ')
	}
''')]),
("n25-l-helper",'C25',[(L,'''		w.WriteString(getPrefix(i))

		item = textutils.TrimConsecutiveNewlines(item)
		item = textutils.TrimUnnecessaryHardLineBreaks(item)
		item = ctx.UnEscapeContent(item)

		// An item might have different lines that each
		// must be indented with the correct count of spaces.
		renderMultiLineListItem(w, item, indentCount)
''','''		writeItem(ctx, w, getPrefix(i), item, indentCount)
'''),(L,'''func (c commonmark) renderListContainer''','''func writeItem(ctx converter.Context, w converter.Writer, prefix string, item []byte, indentCount int) {
	item = textutils.TrimConsecutiveNewlines(item)
	item = textutils.TrimUnnecessaryHardLineBreaks(item)
	item = ctx.UnEscapeContent(item)

	w.WriteString(prefix)
	renderMultiLineListItem(w, item, indentCount)
}

func (c commonmark) renderListContainer''')]),
]
