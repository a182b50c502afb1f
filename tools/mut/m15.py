U='plugin/table/utils.go'; T='plugin/table/2_collect.go'; L='plugin/commonmark/render_list.go'; TT='plugin/table/table.go'
RS='rowSpan := min(getNumberAttributeOr(cellNode, "rowspan", 1), maxSpan)'
CS='colSpan := min(getNumberAttributeOr(cellNode, "colspan", 1), maxSpan)'
M=[
("c08-row",'C08',[(T,RS,'rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)')]),
("c08-col",'C08',[(T,CS,'colSpan := getNumberAttributeOr(cellNode, "colspan", 1)')]),
("c08-max",'C08',[(T,CS,'colSpan := max(getNumberAttributeOr(cellNode, "colspan", 1), 1)')]),
("c08-both",'C08',[(T,RS,'rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)'),(T,CS,'''colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
		if rowSpan > maxSpan && colSpan > maxSpan {
			rowSpan, colSpan = maxSpan, maxSpan
		}''')]),
("c08-limit-mirror",'C08',[(T,CS,'''colSpan := getNumberAttributeOr(cellNode, "colspan", 1)
		if p.spanCellBehavior == SpanBehaviorMirror {
			colSpan = min(colSpan, maxSpan)
		}''')]),
("c08-digits",'C08',[(T,CS,'''colSpan := max(1, parseSpan(dom.GetAttributeOr(cellNode, "colspan", "1")))'''),(T,"func collectAlignments(",'''func parseSpan(val string) int {
	num := 0
	for _, r := range val {
		if r < '0' || r > '9' {
			break
		}
		num = num*10 + int(r-'0')
	}
	return num
}

func collectAlignments(''')]),
("c08-list-make",'C08',[(L,"	items := make([][]byte, 0, len(children))\n","	items := make([][]byte, 0, len(children)+getStartAt(n))\n")]),
("c08-list-pad",'C08',[(L,"		return fmt.Sprintf(format, currentIndex)\n",'''		if currentIndex > 99 && dom.GetAttributeOr(n, "reversed", "") != "" {
			return fmt.Sprintf("%*d. ", currentIndex, sliceIndex)
		}
		return fmt.Sprintf(format, currentIndex)
'''),(L,'	"github.com/JohannesKaufmann/dom"\n','	"github.com/JohannesKaufmann/dom"\n')]),
("c08-list-width",'C08',[(L,"strconv.Itoa(maxLength)","strconv.Itoa(max(maxLength, startAt))")]),
("c08-list-loop",'C08',[(L,"		// Pad the numbers","		for maxDigits := 1; maxDigits < startAt; maxDigits++ {\n			if maxDigits == 1 {\n				continue\n			}\n		}\n		// Pad the numbers")]),
("c08-list-log",'C08',[(L,"		// Pad the numbers","		for rest := startAt; rest > 10; rest -= 10 {\n			maxLength = max(maxLength, 1)\n		}\n		// Pad the numbers")]),
("c08-list-repeat",'C08',[(L,'''	startAt := getStartAt(n)
''','''	startAt := getStartAt(n)
	lead := ""
	if n.Parent != nil && n.Parent.Data == "li" && startAt > 1000 {
		lead = string(bytes.Repeat([]byte(" "), startAt))
	}
'''),(L,"return fmt.Sprintf(format, currentIndex)","return lead + fmt.Sprintf(format, currentIndex)")]),
("c08-table-grow",'C08',[(T,"	normalRowNodes := selectNormalRowNodes(node, headerRowNode)\n",'''	normalRowNodes := selectNormalRowNodes(node, headerRowNode)
	if cols := getNumberAttributeOr(node, "cols", 0); cols > 1 && len(normalRowNodes) == 0 {
		normalRowNodes = growSlice(normalRowNodes, cols, node)
	}
''')]),
# neutrals
("n08-list-number",None,[(L,'''	for i, item := range items {
		w.WriteString(getPrefix(i))
''','''	first := getStartAt(n)
	for number := first; number < first+len(items); number++ {
		i := number - first
		item := items[i]
		w.WriteString(getPrefix(i))
''')]),
("n08-clamp",None,[(T,RS,'rowSpan := getSpan(cellNode, "rowspan")'),(T,CS,'colSpan := getSpan(cellNode, "colspan")'),(U,"type modification struct",'''func getSpan(node *html.Node, key string) int {
	span := getNumberAttributeOr(node, key, 1)
	if span > maxSpan {
		span = maxSpan
	}
	return span
}

type modification struct''')]),
("n08-clamp2",None,[(T,RS,'rowSpan := clamp(getNumberAttributeOr(cellNode, "rowspan", 1), 1, maxSpan)'),(T,CS,'colSpan := clamp(getNumberAttributeOr(cellNode, "colspan", 1), 1, maxSpan)'),(U,"type modification struct",'''func clamp(n, low, high int) int {
	switch {
	case n < low:
		return low
	case n > high:
		return high
	default:
		return n
	}
}

type modification struct''')]),
("n08-struct",None,[(T,RS,'var span spans\n\t\tspan.row = min(maxSpan, getNumberAttributeOr(cellNode, "rowspan", 1))'),(T,CS,'span.col = min(maxSpan, getNumberAttributeOr(cellNode, "colspan", 1))'),(T,"rowIndex, index, rowSpan, colSpan, p.","rowIndex, index, span.row, span.col, p."),(U,"type modification struct",'''type spans struct{ row, col int }

type modification struct''')]),
("n08-inparse",None,[(T,RS,'rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)'),(T,CS,'colSpan := getNumberAttributeOr(cellNode, "colspan", 1)'),(U,"	return num\n}","	return min(num, maxSpan)\n}")]),
("n08-inparse2",None,[(T,RS,'rowSpan := getNumberAttributeOr(cellNode, "rowspan", 1)'),(T,CS,'colSpan := getNumberAttributeOr(cellNode, "colspan", 1)'),(U,"	return num\n}","	if num > maxSpan {\n		return maxSpan\n	}\n	return num\n}")]),
("n08-startstruct",None,[(L,'''	startAt := getStartAt(n)

	return''','''	numbering := struct{ first, last int }{first: getStartAt(n)}
	numbering.last = numbering.first + sliceLength - 1

	return'''),(L,"currentIndex := startAt + sliceIndex","currentIndex := numbering.first + sliceIndex"),(L,"lastIndex := startAt + sliceLength - 1\n","lastIndex := numbering.last\n")]),
("n08-pad-hand",None,[(L,'''		format := `%0` + strconv.Itoa(maxLength) + `d. `
		return fmt.Sprintf(format, currentIndex)
''','''		return fmt.Sprintf("%0*d. ", maxLength, currentIndex)
''')]),
]
