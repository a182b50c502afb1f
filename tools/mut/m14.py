C='plugin/commonmark/commonmark.go'; ES='internal/escape/'; R='converter/escape.go'; S='plugin/strikethrough/strikethrough.go'
HD=ES+'elem_header.go'; LI=ES+'elem_list.go'; CD=ES+'elem_code.go'; DV=ES+'elem_divider.go'; Q=ES+'elem_quote.go'; IM=ES+'elem_image.go'; UT=ES+'util.go'; IB=ES+'elem_italic_bold.go'
SKIP3='''		if chars[i] == placeholderByte {
			continue
		}
'''
M=[
("c15-no-close-paren",'C15',[(LI,"chars[index] != '.' && chars[index] != ')' {","chars[index] != '.' && chars[index] != ')' && chars[index] != ':' {")]),
("c15-quote-tilde",'C15',[(Q,"chars[index] != '>' {","chars[index] != '>' && chars[index] != '<' {")]),
("c15-unreg-tilde",'C15',[(S,"	conv.Register.EscapedChar('~')\n","")]),
("c15-divider-i",'C15',[(DV,"return lastChar - index","return lastChar")]),
("c15-divider-plus",'C15',[(DV,"return lastChar - index","return lastChar - index + 1")]),
("c15-divider-init",'C15',[(DV,"lastChar := len(chars)","lastChar := len(chars) + 1")]),
("c15-fenced-plus",'C15',[(CD,"return i - index","return i - index + 1")]),
("c15-atx-plus",'C15',[(HD,"			return i - index\n","			return i - index - 1\n")]),
("c15-atx-len",'C15',[(HD,"	return 1\n}\n\nfunc IsSetext","	return len(chars)\n}\n\nfunc IsSetext")]),
("c15-zero",'C15',[(HD,"	return 1\n}\n\nfunc IsSetext","	return 0\n}\n\nfunc IsSetext")]),
("c15-backslash-two",'C15',[(ES+"elem_backslash.go","	return 1","	return index")]),
("c15-mark-not-first",'C15',[(R,"isMarkdownChar := conv.checkIsEscapedChar(r)","isMarkdownChar := conv.checkIsEscapedChar(r) && (index+1 < len(chars) || r != '\\\\')")]),
("c15-mark-run",'C15',[(R,"isMarkdownChar := conv.checkIsEscapedChar(r)","isMarkdownChar := conv.checkIsEscapedChar(r) && (index == 0 || chars[index-1] != '\\\\')")]),
("c15-mark-pos",'C15',[(R,"isMarkdownChar := conv.checkIsEscapedChar(r)","isMarkdownChar := index < 100000 && conv.checkIsEscapedChar(r)")]),
("c15-link-paren",'C15',[(C,"content = strings.Replace(content, string(marker.MarkerEscaping)+`]`, `\\]`, -1)","content = strings.Replace(content, string(marker.MarkerEscaping)+`]`, `\\]`, -1)\n\t\tcontent = strings.Replace(content, string(marker.MarkerEscaping)+`:`, `\\:`, -1)")]),
# C16
("c16-atx-left",'C16',[(HD,'''		if chars[i] == '\\n' {
			break
		}
		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == ' ' {
			continue
		}
		return -1
''','''		if chars[i] == '\\n' {
			break
		}
		if chars[i] == ' ' || chars[i] == placeholderByte && i == index-1 {
			continue
		}
		return -1
''')]),
("c16-quote-left",'C16',[(Q,SKIP3,'''		if chars[i] == placeholderByte && i+1 == index {
			continue
		}
''')]),
("c16-divider-right",'C16',[(DV,'''		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == ' ' {
			continue
		}
		if chars[i] == chars[index] {''','''		if chars[i] == placeholderByte && count < 20 {
			continue
		}
		if chars[i] == ' ' {
			continue
		}
		if chars[i] == chars[index] {''')]),
("c16-fenced-count",'C16',[(CD,'''		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == '`' ''','''		if chars[i] == placeholderByte && count < 3 {
			continue
		}
		if chars[i] == '`' ''')]),
("c16-atx-count",'C16',[(HD,'''		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == ' ' ||''','''		if chars[i] == placeholderByte {
			if nPoundSigns == 6 {
				return -1
			}
			continue
		}
		if chars[i] == ' ' ||''')]),
("c16-setext-nl",'C16',[(HD,'''		if chars[i] == '\\n' {
			newlineCount++
			continue
		}
''','''		if chars[i] == '\\n' {
			newlineCount++
			continue
		}
'''),(HD,'''		if chars[i] == placeholderByte || chars[i] == ' ' {
			continue
		}
''','''		if chars[i] == ' ' {
			continue
		}
		if chars[i] == placeholderByte && newlineCount == 0 {
			continue
		}
''')]),
("c16-next-fixed",'C16',[(LI,'''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}
		if chars[i] == ' ' {
			continue
		}
		if chars[i] == placeholderByte {
			continue
		}
		return -1
	}

	next := getNext(chars, index)
''','''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}
		if chars[i] == ' ' {
			continue
		}
		if chars[i] == placeholderByte {
			continue
		}
		return -1
	}

	var next byte
	if index+1 < len(chars) {
		next = chars[index+1]
	}
	if next == placeholderByte {
		return 1
	}
''')]),
("c16-olist-prev",'C16',[(LI,"	prev := getPrevAsRune(chars, index)\n","	var prev rune\n	if index >= 2 {\n		prev = rune(chars[index-2])\n	}\n")]),
("c16-getprev-once",'C16',[(UT,'''		r, _ := utf8.DecodeLastRune(chars[:i+1])
''','''		r, _ := utf8.DecodeLastRune(chars[:index-1])
''')]),
("c16-next-decode",'C16',[(UT,'''	for i := index + 1; i < len(source); i++ {
		if source[i] == placeholderByte {
			continue
		}

		r, _ := utf8.DecodeRune(source[i:])
		return r
	}
	return 0
''','''	if index+1 < len(source) {
		r, _ := utf8.DecodeRune(source[index+1:])
		return r
	}
	return 0
''')]),
("c16-next-once",'C16',[(UT,'''	for i := index + 1; i < len(source); i++ {
		if source[i] == placeholderByte {
			continue
		}

		r, _ := utf8.DecodeRune(source[i:])
		return r
	}
	return 0
''','''	for i := index + 1; i < len(source); i++ {
		if source[i] == placeholderByte && i == index+1 {
			continue
		}

		r, _ := utf8.DecodeRune(source[i:])
		return r
	}
	return 0
''')]),
("c16-fence-prefix",'C16',[(CD,'''	count := 1
	i := index + 1
''','''	if bytes.HasPrefix(chars[index:], []byte("```")) {
		return 3
	}
	count := 1
	i := index + 1
'''),(CD,"package escape\n","package escape\n\nimport \"bytes\"\n")]),
("c16-link-search",'C16',[(IM,'''	for i := index + 1; i < len(chars); i++ {
		if chars[i] == '\\n' {
			return -1
		}

		if chars[i] == ']' {
			return 1
		}
	}

	return -1
''','''	line, _, _ := bytes.Cut(chars[index+1:], []byte("\\n"))
	if bytes.Contains(line, []byte("]")) && !bytes.Contains(line, []byte("] ")) || bytes.Contains(line, []byte("](")) {
		return 1
	}

	return -1
'''),(IM,"package escape\n","package escape\n\nimport \"bytes\"\n")]),
("c16-link-stop",'C16',[(IM,'''	for i := index + 1; i < len(chars); i++ {
		if chars[i] == '\\n' {
			return -1
		}
''','''	for i := index + 1; i < len(chars); i++ {
		if chars[i] == '\\n' || chars[i] == placeholderByte && i+1 < len(chars) && chars[i+1] != ']' {
			return -1
		}
''')]),
("c16-strike-first",'C16',[(S,'''	next := escape.GetNextAsRune(chars, index)
''','''	if index+1 < len(chars) && chars[index+1] > ' ' {
		return 1
	}
	next := escape.GetNextAsRune(chars, index)
''')]),
# neutrals
("n15-switch-answer",None,[(DV,'''	if count >= 3 {
		return lastChar - index
	}
	return -1
''','''	if count < 3 {
		return -1
	}
	length := lastChar - index
	return length
''')]),
("n15-fenced-rest",None,[(CD,'''	count := 1
	i := index + 1
	for ; i < len(chars); i++ {
		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == '`' || chars[i] == '~' {
			count++
			continue
		}

		break
	}
	if count < 3 {
		return -1
	}

	return i - index
''','''	count := 1
	length := 1
	for _, char := range chars[index+1:] {
		if char != placeholderByte {
			if char != '`' && char != '~' {
				break
			}
			count++
		}
		length++
	}
	if count < 3 {
		return -1
	}

	return length
''')]),
("n16-atstart",None,[(HD,'''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}
		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == ' ' {
			continue
		}
		return -1
	}
''','''	if !onlySpacesBefore(chars, index) {
		return -1
	}
'''),(Q,'''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}
		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == ' ' {
			continue
		}

		return -1
	}

	return 1
''','''	if onlySpacesBefore(chars, index) {
		return 1
	}
	return -1
'''),(UT,"func IsDigit(",'''func onlySpacesBefore(chars []byte, index int) bool {
	i := index - 1
	for i >= 0 && chars[i] != '\\n' {
		switch chars[i] {
		case ' ', placeholderByte:
			i--
		default:
			return false
		}
	}
	return true
}

func IsDigit(''')]),
("n16-linestart-slice",None,[(LI,'''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\n' {
			break
		}
		if chars[i] == ' ' {
			continue
		}
		if chars[i] == placeholderByte {
			continue
		}
		return -1
	}

	next''','''	lineStart := bytes.LastIndexByte(chars[:index], '\\n') + 1
	for _, c := range chars[lineStart:index] {
		if c != ' ' && c != placeholderByte {
			return -1
		}
	}

	next'''),(LI,'import (\n','import (\n\t"bytes"\n')]),
("n16-next-helper",None,[(UT,'''	for i := index + 1; i < len(chars); i++ {
		if chars[i] == placeholderByte {
			continue
		}
		return chars[i]
	}
	return 0
''','''	i := nextIndex(chars, index)
	if i < 0 {
		return 0
	}
	return chars[i]
'''),(UT,'''	for i := index + 1; i < len(source); i++ {
		if source[i] == placeholderByte {
			continue
		}

		r, _ := utf8.DecodeRune(source[i:])
		return r
	}
	return 0
''','''	i := nextIndex(source, index)
	if i < 0 {
		return 0
	}
	r, _ := utf8.DecodeRune(source[i:])
	return r
'''),(UT,"func getPrevAsRune(",'''func nextIndex(chars []byte, index int) int {
	for i := index + 1; i < len(chars); i++ {
		if chars[i] != placeholderByte {
			return i
		}
	}
	return -1
}

func getPrevAsRune(''')]),
("n16-next-trim",None,[(UT,'''	for i := index + 1; i < len(source); i++ {
		if source[i] == placeholderByte {
			continue
		}

		r, _ := utf8.DecodeRune(source[i:])
		return r
	}
	return 0
''','''	rest := bytes.TrimLeft(source[index+1:], string(placeholderRune))
	if len(rest) == 0 {
		return 0
	}
	r, _ := utf8.DecodeRune(rest)
	return r
'''),(UT,'import "unicode/utf8"','import (\n\t"bytes"\n\t"unicode/utf8"\n)\n')]),
("n16-link-indexbyte",None,[(IM,'''	for i := index + 1; i < len(chars); i++ {
		if chars[i] == '\\n' {
			return -1
		}

		if chars[i] == ']' {
			return 1
		}
	}

	return -1
''','''	line := chars[index+1:]
	if end := bytes.IndexByte(line, '\\n'); end >= 0 {
		line = line[:end]
	}
	if bytes.IndexByte(line, ']') >= 0 {
		return 1
	}

	return -1
'''),(IM,"package escape\n","package escape\n\nimport \"bytes\"\n")]),
("n16-setext-state",None,[(HD,'''	var newlineCount int
	for i := index - 1; i >= 0; i-- {
		if chars[i] == placeholderByte || chars[i] == ' ' {
			continue
		}

		if chars[i] == '\\n' {
			newlineCount++
			continue
		}
''','''	newlineCount := 0
	for i := index - 1; i >= 0; i-- {
		c := chars[i]
		switch c {
		case placeholderByte, ' ':
			continue
		case '\\n':
			newlineCount++
			continue
		}
''')]),
]
