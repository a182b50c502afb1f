K='plugin/commonmark/render_code.go'
H='plugin/commonmark/render_heading.go'
B='plugin/commonmark/render_bold_italic.go'
R='plugin/commonmark/handle_render.go'
L='plugin/commonmark/render_list.go'
A='plugin/commonmark/render_link.go'
I='plugin/commonmark/render_image.go'
F='internal/textutils/codefence.go'
D='internal/textutils/delimiter.go'
S='plugin/strikethrough/strikethrough.go'
M=[
# C18
("c18-close-short",'C18',[(K,'''	w.Write(code)
	w.WriteRune('\\n')
	w.WriteString(fence)
	w.WriteString("\\n\\n")''','''	w.Write(code)
	w.WriteRune('\\n')
	w.WriteString(strings.Repeat(string(fenceChar), 3))
	w.WriteString("\\n\\n")''')]),
("c18-inline-close",'C18',[(K,'''	w.WriteString(code)
	w.WriteString(fence)

	return''','''	w.WriteString(code)
	if strings.HasSuffix(code, " ") {
		w.WriteRune(fenceChar)
	} else {
		w.WriteString(fence)
	}

	return''')]),
("c18-wrong-char",'C18',[(F,'''	repeat := CalculateCodeFenceOccurrences(fenceChar, content)
''','''	repeat := CalculateCodeFenceOccurrences('`', content)
''')]),
("c18-cap",'C18',[(F,'''	if repeat < 3 {
		repeat = 3
	}
''','''	if repeat < 3 {
		repeat = 3
	}
	if repeat > 8 {
		repeat = 8
	}
''')]),
("c18-min",'C18',[(F,'''	repeat++

	// You have''','''	if repeat != 3 || fenceChar == '`' {
		repeat++
	}

	// You have''')]),
("c18-inline-odd",'C18',[(K,'''	maxCount++

	fence''','''	if maxCount != 2 {
		maxCount++
	}

	fence''')]),
("c18-measure-before",'C18',[(K,'''	fence := textutils.CalculateCodeFence(fenceChar, string(code))
''','''	fence := textutils.CalculateCodeFence(fenceChar, string(bytes.TrimSpace(code)))
''')]),
("c18-measure-line",'C18',[(K,'''	maxCount := textutils.CalculateCodeFenceOccurrences(fenceChar, code)
''','''	firstLine, _, _ := strings.Cut(code, "  ")
	maxCount := textutils.CalculateCodeFenceOccurrences(fenceChar, firstLine)
''')]),
("c18-run-drop",'C18',[(F,'''		} else if charsTogether != 0 {
			occurrences = append(occurrences, charsTogether)
			charsTogether = 0
		}''','''		} else if charsTogether != 0 {
			if char != ' ' {
				occurrences = append(occurrences, charsTogether)
			}
			charsTogether = 0
		}''')]),
("c18-last-run",'C18',[(F,'''	if charsTogether != 0 {
		occurrences = append(''','''	if charsTogether > 1 {
		occurrences = append(''')]),
("c18-delim-right",'C18',[(D,'			buf.Write(delimiter)\n			buf.Write(rightExtra)','			if len(rightExtra) < 2 {\n				buf.Write(delimiter)\n			}\n			buf.Write(rightExtra)')]),
("c18-delim-space",'C18',[(D,'		if trimmed == nil {','		if trimmed == nil && len(lines) > 1 {')]),
("c18-em-other",'C18',[(B,'	content = textutils.DelimiterForEveryLine(content, delimiter)','	content = textutils.DelimiterForEveryLine(content, delimiter)\n	if bytes.HasPrefix(content, delimiter) && bytes.Contains(content, []byte("\\n\\n")) {\n		content = append(content, delimiter...)\n	}')]),
("c18-info-newline",'C18',[(K,'''strings.Fields(strings.ReplaceAll(class, "`", ""))''','''strings.Split(strings.ReplaceAll(class, "`", ""), " ")''')]),
("c18-noinfo-nl",'C18',[(K,'''	w.WriteString(infoString)
	w.WriteRune('\\n')
	w.Write(code)
	w.WriteRune('\\n')''','''	w.WriteString(infoString)
	w.WriteRune('\\n')
	w.Write(code)
	if len(code) > 0 {
		w.WriteRune('\\n')
	}''')]),
# C29
("c29-h5",'C29',[(H,'	case "h5":\n		return 5','	case "h5":\n		return 4')]),
("c29-setext-h2",'C29',[(H,'	if level == 1 {\n		line','	if level == 1 || width > 80 {\n		line')]),
("c29-setext-h3",'C29',[(H,'level < 3 {','level <= 3 {')]),
("c29-atx-long",'C29',[(H,'		w.Write(c.atxPrefix(level))\n','		if len(content) > 200 {\n			level = 6\n		}\n		w.Write(c.atxPrefix(level))\n')]),
("c29-atx-nospace",'C29',[(H,"		w.WriteRune(' ')\n","		if !bytes.HasPrefix(content, []byte(\"[\")) {\n			w.WriteRune(' ')\n		}\n")]),
("c29-tt",'C29',[(R,'''		"var", "samp", "kbd", "tt"''','''		"var", "samp", "kbd"''')]),
("c29-strike",'C29',[(S,'''name == "del" || name == "s" || name == "strike"''','''name == "del" || name == "s"''')]),
("c29-ins",'C29',[(S,'''name == "del" || name == "s" || name == "strike"''','''name == "del" || name == "s" || name == "strike" || name == "ins"''')]),
("c29-i-strong",'C29',[(B,'name == "strong" || name == "b" {','name == "strong" || name == "b" || n.Parent != nil && n.Parent.Data == "th" {')]),
("c29-b-none",'C29',[(B,'	content := buf.Bytes()\n','	content := buf.Bytes()\n	if n.Parent != nil && n.Parent.Data == "h1" {\n		w.Write(content)\n		return converter.RenderSuccess\n	}\n')]),
("c29-table-kbd",'C29',[('plugin/table/table.go','	case "table":\n','	case "kbd":\n		return s.renderFallbackRow(ctx, w, n)\n	case "table":\n')]),
("c29-u",'C29',[(R,'''		"em", "i":''','''		"em", "i", "u":''')]),
("c29-ul-default",'C29',[(L,'''		if n.Data == "ul" {''','''		if n.Data == "ul" || sliceLength == 1 {''')]),
("c29-ol-zero",'C29',[(L,'''		return fmt.Sprintf(format, currentIndex)''','''		if currentIndex == 0 {
			return c.BulletListMarker + " "
		}
		return fmt.Sprintf(format, currentIndex)''')]),
("c29-link-order",'C29',[(A,"	w.Write(l.before)\n	w.WriteRune('[')","	w.WriteRune('[')\n	w.Write(l.before)"),(A,"	w.WriteRune(']')\n","	if l.href == \"\" && len(l.content) > 20 {\n		return converter.RenderSuccess\n	}\n	w.WriteRune(']')\n")]),
("c29-link-decline",'C29',[(A,'	title := dom','	if strings.HasPrefix(href, "#") && len(href) > 30 {\n		return converter.RenderTryNext\n	}\n\n	title := dom')]),
("c29-img-noalt",'C29',[(I,'''	w.WriteRune('!')
''','''	if alt != "" {
		w.WriteRune('!')
	}
''')]),
# neutral
("n11-codewrap",None,[(K,"""	w.WriteString(fence)
	w.WriteString(code)
	w.WriteString(fence)

	return converter.RenderSuccess
}
""","""	writeFenced(w, fence, code)

	return converter.RenderSuccess
}

func writeFenced(w converter.Writer, fence string, code string) {
	w.WriteString(fence + code + fence)
}
""")]),
("n11-fencehelper",None,[(K,"""	maxCount := textutils.CalculateCodeFenceOccurrences(fenceChar, code)
	maxCount++

	fence := strings.Repeat(string(fenceChar), maxCount)
""","""	fence := inlineFence(code, fenceChar)
"""),(K,"","""
func inlineFence(s string, c rune) string {
	n := textutils.CalculateCodeFenceOccurrences(c, s)
	return strings.Repeat(string(c), n+1)
}
""")]),
("n11-twice",None,[(K,"""	w.Write(code)
	w.WriteRune('\\n')
	w.WriteString(fence)
	w.WriteString("\\n\\n")""","""	w.Write(code)
	w.WriteString("\\n" + fence + "\\n\\n")""")]),
("n11-builder",None,[(K,"""	w.WriteString("\\n\\n")
	w.WriteString(fence)
	w.WriteString(infoString)
	w.WriteRune('\\n')
	w.Write(code)
	w.WriteRune('\\n')
	w.WriteString(fence)
	w.WriteString("\\n\\n")""","""	var out bytes.Buffer
	out.WriteString("\\n\\n")
	out.WriteString(fence + infoString + "\\n")
	out.Write(code)
	out.WriteString("\\n" + fence)
	out.WriteString("\\n\\n")
	w.Write(out.Bytes())""")]),
("n11-max",None,[(F,"""	if repeat < 3 {
		repeat = 3
	}

	return strings.Repeat(string(fenceChar), repeat)""","""	return strings.Repeat(string(fenceChar), max(repeat, 3))""")]),
("n11-occ-best",None,[(F,"""	var occurrences []int

	var charsTogether int
	for _, char := range content {
		// We encountered a fence character, now count how many
		// are directly afterwards
		if char == fenceChar {
			charsTogether++
		} else if charsTogether != 0 {
			occurrences = append(occurrences, charsTogether)
			charsTogether = 0
		}
	}

	// If the last element in the content was a fenceChar
	if charsTogether != 0 {
		occurrences = append(occurrences, charsTogether)
	}

	return findMax(occurrences)""","""	longest, current := 0, 0
	for _, char := range content {
		if char != fenceChar {
			current = 0
			continue
		}
		current++
		if current > longest {
			longest = current
		}
	}
	return longest"""),(F,"""func findMax(a []int) (max int) {
	for i, value := range a {
		if i == 0 {
			max = a[i]
		}

		if value > max {
			max = value
		}
	}
	return max
}""","")]),
("n11-occ-index",None,[(F,"""	var occurrences []int

	var charsTogether int
	for _, char := range content {
		// We encountered a fence character, now count how many
		// are directly afterwards
		if char == fenceChar {
			charsTogether++
		} else if charsTogether != 0 {
			occurrences = append(occurrences, charsTogether)
			charsTogether = 0
		}
	}

	// If the last element in the content was a fenceChar
	if charsTogether != 0 {
		occurrences = append(occurrences, charsTogether)
	}

	return findMax(occurrences)""","""	var occurrences []int
	chars := []rune(content)
	for i := 0; i < len(chars); i++ {
		j := i
		for j < len(chars) && chars[j] == fenceChar {
			j++
		}
		if j > i {
			occurrences = append(occurrences, j-i)
			i = j
		}
	}

	return findMax(occurrences)""")]),
("n11-repeatloop",None,[(F,"""	return strings.Repeat(string(fenceChar), repeat)""","""	var b strings.Builder
	for i := 0; i < repeat; i++ {
		b.WriteRune(fenceChar)
	}
	return b.String()""")]),
("n11-heading-map",None,[(H,"""	switch name {
	case "h1":
		return 1
	case "h2":
		return 2
	case "h3":
		return 3
	case "h4":
		return 4
	case "h5":
		return 5
	case "h6":
		return 6
	default:
		return 6
	}
}""","""	level := int(name[1] - '0')
	if level < 1 || level > 6 {
		return 6
	}
	return level
}""")]),
("n11-heading-repeat",None,[(H,"""		w.WriteString("\\n\\n")
		w.Write(c.atxPrefix(level))
		w.WriteRune(' ')
		w.Write(content)""","""		w.WriteString("\\n\\n" + strings.Repeat("#", level) + " ")
		w.Write(content)"""),(H,'	"regexp"\n','	"regexp"\n	"strings"\n'),(H,"""func (r *commonmark) atxPrefix(level int) []byte {
	return bytes.Repeat([]byte("#"), level)
}
""","")]),
("n11-dispatch-if",None,[(R,"""	case "img":
		return c.renderImage(ctx, w, n)

	case "a":
		return c.renderLink(ctx, w, n)
""",""""""),(R,"""	name := dom.NodeName(n)

	switch name {""","""	name := dom.NodeName(n)

	if name == "a" {
		return c.renderLink(ctx, w, n)
	}
	if dom.NodeName(n) == "img" {
		return c.renderImage(ctx, w, n)
	}

	switch name {""")]),
("n11-dispatch-map",None,[(R,"""	case "code",
		"var", "samp", "kbd", "tt":
		return c.renderInlineCode(ctx, w, n)
""",""""""),(R,"""	name := dom.NodeName(n)

	switch name {""","""	name := dom.NodeName(n)

	if inlineCodeNames[name] {
		return c.renderInlineCode(ctx, w, n)
	}

	switch name {"""),(R,"","""
var inlineCodeNames = map[string]bool{"code": true, "var": true, "samp": true, "kbd": true, "tt": true}
""")]),
("n11-delim-join",None,[(D,"""	var buf bytes.Buffer

	lines := bytes.Split(text, []byte("\\n"))
	for i, line := range lines {
		leftExtra, trimmed, rightExtra := SurroundingSpaces(line)

		if trimmed == nil {
			// For empty lines, we don't need a delimiter
			buf.Write(leftExtra)
			buf.Write(rightExtra)
		} else {
			buf.Write(leftExtra)
			buf.Write(delimiter)
			buf.Write(trimmed)
			buf.Write(delimiter)
			buf.Write(rightExtra)
		}

		// To join the lines again, add a newlines character
		if i < len(lines)-1 {
			buf.WriteRune('\\n')
		}
	}

	return buf.Bytes()""","""	lines := bytes.Split(text, []byte("\\n"))
	for i, line := range lines {
		lines[i] = wrapLine(line, delimiter)
	}
	return bytes.Join(lines, []byte("\\n"))"""),(D,"","""
func wrapLine(line, delimiter []byte) []byte {
	left, trimmed, right := SurroundingSpaces(line)
	if trimmed == nil {
		return append(append([]byte{}, left...), right...)
	}
	var out []byte
	out = append(out, left...)
	out = append(out, delimiter...)
	out = append(out, trimmed...)
	out = append(out, delimiter...)
	out = append(out, right...)
	return out
}
""")]),
("n11-ol-plus",None,[(L,"""		format := `%0` + strconv.Itoa(maxLength) + `d. `
		return fmt.Sprintf(format, currentIndex)""","""		return fmt.Sprintf("%0*d. ", maxLength, currentIndex)""")]),
("n11-ol-itoa",None,[(L,"""		format := `%0` + strconv.Itoa(maxLength) + `d. `
		return fmt.Sprintf(format, currentIndex)""","""		number := strconv.Itoa(currentIndex)
		for len(number) < maxLength {
			number = "0" + number
		}
		return number + ". " """),(L,'	"fmt"\n','')]),
("n11-link-fprintf",None,[(A,"""	w.Write(l.before)
	w.WriteRune('[')
	w.Write(l.content)
	w.WriteRune(']')
	w.WriteRune('(')
	w.WriteString(l.href)
	if l.title != "" {
		// The destination and title must be separated by a space
		w.WriteRune(' ')
		w.Write(textutils.SurroundByQuotes([]byte(l.title)))
	}
	w.WriteRune(')')
	w.Write(l.after)
""","""	destination := l.href
	if l.title != "" {
		destination += " " + string(textutils.SurroundByQuotes([]byte(l.title)))
	}
	fmt.Fprintf(w, "%s[%s](%s)%s", l.before, l.content, destination, l.after)
"""),(A,'	"bytes"\n','	"bytes"\n	"fmt"\n')]),
("n11-link-noStruct",None,[(A,"""	switch c.LinkStyle {
	case LinkStyleInlined:
		return c.renderLinkInlined(w, l)
	default:
		return converter.RenderTryNext
	}""","""	if c.LinkStyle != LinkStyleInlined {
		return converter.RenderTryNext
	}
	return c.renderLinkInlined(w, l)""")]),
("n11-quote",None,[('plugin/commonmark/render_blockquote.go','''	w.WriteRune('\\n')
	w.WriteRune('\\n')
	w.Write(content)
	w.WriteRune('\\n')
	w.WriteRune('\\n')
''','''	w.WriteString("\\n\\n" + string(content) + "\\n\\n")
''')]),
]
M+=[
("n11-em-empty",None,[(B,'	content = textutils.DelimiterForEveryLine(','	if len(bytes.TrimSpace(content)) == 0 {\n		w.Write(content)\n		return converter.RenderSuccess\n	}\n	content = textutils.DelimiterForEveryLine('),]),
("n11-em-index",None,[('internal/textutils/surrounding_spaces.go',"""	rightTrimmed := bytes.TrimRightFunc(content, func(r rune) bool {
		return unicode.IsSpace(r)
	})
	rightExtra := content[len(rightTrimmed):]

	trimmed := bytes.TrimLeftFunc(rightTrimmed, func(r rune) bool {
		return unicode.IsSpace(r)
	})
	leftExtra := content[0 : len(rightTrimmed)-len(trimmed)]

	return leftExtra, trimmed, rightExtra""","""	isContent := func(r rune) bool { return !unicode.IsSpace(r) }
	start := bytes.IndexFunc(content, isContent)
	if start == -1 {
		return nil, nil, content
	}
	trimmed := bytes.TrimRightFunc(content[start:], unicode.IsSpace)
	return content[:start], trimmed, content[start+len(trimmed):]"""),]),
("n11-em-direct",None,[(B,"""	content = textutils.DelimiterForEveryLine(content, delimiter)

	w.Write(content)
""","""	for i, line := range bytes.Split(content, []byte("\\n")) {
		if i > 0 {
			w.WriteRune('\\n')
		}
		left, trimmed, right := textutils.SurroundingSpaces(line)
		w.Write(left)
		if len(trimmed) > 0 {
			w.Write(delimiter)
			w.Write(trimmed)
			w.Write(delimiter)
		}
		w.Write(right)
	}
""")]),
("c29-em-link",'C29',[(B,"""	w.Write(content)

""","""	if bytes.HasPrefix(content, []byte("![")) {
		content = buf.Bytes()
	}
	w.Write(content)

""")]),
]
