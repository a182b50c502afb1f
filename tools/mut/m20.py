AD='internal/domutils/adjacent.go'; DU='internal/domutils/domutils.go'; EC='internal/domutils/empty_code.go'; LE='internal/domutils/list_end_comment.go'; AS='internal/domutils/add_space.go'
ES='converter/escape.go'; CN='internal/textutils/consecutive_newlines.go'; BS='internal/escape/elem_backslash.go'; CO='internal/escape/elem_code.go'; DV='internal/escape/elem_divider.go'
HD='internal/escape/elem_header.go'; LI='internal/escape/elem_list.go'; TU='plugin/table/utils.go'; TC='plugin/table/2_collect.go'; TS='plugin/table/1_select.go'; CL='collapse/collapse.go'
SW='internal/domutils/swap.go'; RC='plugin/commonmark/render_code.go'; UT='internal/escape/util.go'; RE='internal/domutils/redundant.go'
M=[
("c07-l-adjacent",'C07',[(AD,'''			collectedNodes = append(collectedNodes, node)
			node = dom.GetNextNeighborNodeExcludingOwnChild(node)''','''			collectedNodes = append(collectedNodes, node)
			if node.FirstChild != nil {
				node = dom.GetNextNeighborNodeExcludingOwnChild(node)
			}''')]),
("c07-l-merge",'C07',[(AD,'''		next := c.NextSibling
''','''		next := c.NextSibling
		if c.Type == html.DoctypeNode {
			continue
		}
''')]),
("c07-l-newlines",'C07',[(CN,'''		if r == '\\n' {
			newlineCount++
''','''		if r == utf8.RuneError && size == 1 {
			continue
		}
		if r == '\\n' {
			newlineCount++
''')]),
("c07-l-skip2",'C07',[(ES,'index += skip - 1','index += skip - 2')]),
("c07-l-back",'C07',[(ES,'''		if index+1 >= len(chars) {
			break
		}
''','''		if index+1 >= len(chars) {
			index--
			continue
		}
''')]),
("c07-l-skipcont",'C07',[(ES,'''		if skip == -1 {
			continue
		}
''','''		if skip == -1 {
			index += skip
			continue
		}
''')]),
("c07-s-zero",'C07',[(BS,'return -1','return 0')]),
("c07-s-fence",'C07',[(CO,'''	i := index + 1
''','''	i := index
'''),(CO,'count := 1','count := 0')]),
("c07-s-fencelen",'C07',[(CO,'return i - index','return i - index - 3')]),
("c07-s-divider",'C07',[(DV,'lastChar = i\n','lastChar = i - 3\n')]),
("c07-s-divider0",'C07',[(DV,'''	lastChar := len(chars)
''','''	lastChar := index
''')]),
("c07-l-nexttext",'C07',[(DU,'''			node = dom.GetNextNeighborNode(node)
			continue
		}
''','''			node = dom.GetNextNeighborNode(node)
			continue
		}
		if node.Type == html.CommentNode {
			continue
		}
''')]),
("c07-l-inside",'C07',[(DU,'''	for p := node.Parent; p != nil; p = p.Parent {
		if nameIsCode(dom.NodeName(p)) {
			return true
		}
	}''','''	p := node.Parent
	for p != nil {
		switch {
		case nameIsCode(dom.NodeName(p)):
			return true
		case p.Type == html.DocumentNode && p.PrevSibling == nil:
			continue
		}
		p = p.Parent
	}''')]),
("c07-l-emptycode",'C07',[(EC,'''			dom.RemoveNode(node)

			node = next
			continue
''','''			if node.Parent == nil {
				continue
			}
			dom.RemoveNode(node)

			node = next
			continue
''')]),
("c07-l-listend",'C07',[(LE,'''		if name == "li" {
			return false
		}
''','''		if name == "li" {
			return false
		}
		if name == "#comment" && node.Data != ListEndCommentData {
			continue
		}
''')]),
("c07-l-lastchild",'C07',[(AS,'''			node = dom.GetPrevNeighborNode(node)
		} else if''','''			if node.LastChild != nil {
				node = node.LastChild
			} else {
				node = dom.GetPrevNeighborNode(node)
			}
		} else if''')]),
("c07-l-firstchild",'C07',[(AS,'''	node := startNode.FirstChild
	for node != nil {
		name := dom.NodeName(node)
		if name == "span" {
			// A span has no special meaning. So we just skip it...
			node = dom.GetNextNeighborNode(node)''','''	node := startNode.FirstChild
	for node != nil {
		name := dom.NodeName(node)
		if name == "span" {
			// A span has no special meaning. So we just skip it...
			if node.FirstChild == nil && node.PrevSibling != nil {
				node = node.PrevSibling
				continue
			}
			node = dom.GetNextNeighborNode(node)''')]),
("c07-r-self",'C07',[(EC,'''		for child := node.FirstChild; child != nil; child = child.NextSibling {
			finder(child)
		}''','''		for child := node.FirstChild; child != nil; child = child.NextSibling {
			if child.Type == html.CommentNode {
				finder(node)
				continue
			}
			finder(child)
		}''')]),
("c07-r-from",'C07',[(SW,'''		for child := node.FirstChild; child != nil; child = child.NextSibling {
			finder(child)
		}''','''		for child := node; child != nil; child = child.NextSibling {
			finder(child)
		}''')]),
("c07-r-select",'C07',[(TS,'''		for child := node.FirstChild; child != nil; child = child.NextSibling {
			finder(child)
		}''','''		if node.FirstChild != nil && node.FirstChild == node.LastChild && node.FirstChild.FirstChild == nil {
			finder(node)
			return
		}
		for child := node.FirstChild; child != nil; child = child.NextSibling {
			finder(child)
		}''')]),
("c07-d-self",'C07',[(TC,'''		ctx.RenderNodes(ctx, &buf, cellNode)''','''		if cellNode.FirstChild == nil && cellNode.NextSibling == nil {
			cellNode = rowNode.Parent
		}
		ctx.RenderNodes(ctx, &buf, cellNode)''')]),
("c07-d-quote",'C07',[('plugin/commonmark/render_blockquote.go','ctx.RenderChildNodes(ctx, &buf, n)','''if n.FirstChild != nil && n.FirstChild.Data == "blockquote" {
		ctx.RenderNodes(ctx, &buf, n)
	} else {
		ctx.RenderChildNodes(ctx, &buf, n)
	}''')]),
("c07-d-parent",'C07',[('plugin/commonmark/render_blockquote.go','ctx.RenderChildNodes(ctx, &buf, n)','''inner := n
	if n.Parent != nil && n.Parent.Data == "blockquote" {
		inner = n.Parent
	}
	ctx.RenderChildNodes(ctx, &buf, inner)''')]),
("c07-l-fence",'C07',[(CO,'''			count++
			continue
''','''			count++
			if count > 10000 {
				i--
			}
			continue
''')]),
("c07-l-header",'C07',[(HD,'''	for i := index - 1; i >= 0; i-- {
''','''	for i := index - 1; i >= 0; i-- {
		if chars[i] == '\\r' {
			i++
			continue
		}
''')]),
("c07-l-parentloop",'C07',[(TC,'''		p = p.Parent
	}

	return false''','''		if name != "span" || p.NextSibling == nil {
			p = p.Parent
		}
	}

	return false''')]),
("c07-l-grow",'C07',[(TU,'''	for range growBy {
		contents = append(contents, placeholderVal)
	}
''','''	for len(contents) < index+1 {
		if growBy > 1000 {
			continue
		}
		contents = append(contents, placeholderVal)
	}
''')]),
("c07-l-fill",'C07',[(TU,'''		for range missingCells {
			rows[i] = append(rows[i], []byte(""))
		}''','''		for n := 0; n != missingCells; n++ {
			rows[i] = append(rows[i], []byte(""))
			if missingCells < 0 {
				n--
			}
		}''')]),
("c07-l-replace",'C07',[(RC,'''	code = bytes.ReplaceAll(code, []byte("\\r"), []byte("\\n"))
''','''	code = bytes.ReplaceAll(code, []byte("\\r"), []byte("\\n"))
	for bytes.Contains(code, []byte("\\t\\t")) {
		code = bytes.ReplaceAll(code, []byte("\\t"), []byte("\\t\\t"))
	}
''')]),
("c07-l-util",'C07',[(UT,'''	for i := index + 1; i < len(chars); i++ {''','''	for i := index + 1; i < len(chars); {''')]),
("c07-l-mod",'C07',[(TU,'''	for dx := 1; dx < colSpan; dx++ {''','''	for dx := 1; dx < colSpan; dx += rowSpan - 1 {''')]),
("c07-l-collapse",'C07',[(CL,'''			node = removeNode(node)
			continue
		}

		var nextNode''','''			continue
		}

		var nextNode''')]),
("n27-while",'C07',[(DU,'''	for p := node.Parent; p != nil; p = p.Parent {
		if nameIsCode(dom.NodeName(p)) {
			return true
		}
	}''','''	p := node.Parent
	for {
		if p == nil {
			break
		}
		if nameIsCode(dom.NodeName(p)) {
			return true
		}
		p = p.Parent
	}''')]),
("n27-rec",'C07',[(DU,'''	for p := node.Parent; p != nil; p = p.Parent {
		if nameIsCode(dom.NodeName(p)) {
			return true
		}
	}
	return false''','''	if node.Parent == nil {
		return false
	}
	return nameIsCode(dom.NodeName(node.Parent)) || isInsideCode(node.Parent)''')]),
("n27-grow",'C07',[(TU,'''	for range growBy {
		contents = append(contents, placeholderVal)
	}
''','''	for len(contents) <= index {
		contents = append(contents, placeholderVal)
	}
	_ = growBy
''')]),
("n27-queue",'C07',[(TS,'''	var finder func(node *html.Node)
	finder = func(node *html.Node) {
		name := dom.NodeName(node)
		if name == "tr" && node != selectedHeaderRowNode {
			// We want to make sure to not select the header row a *second* time.
			collected = append(collected, node)
		}

		for child := node.FirstChild; child != nil; child = child.NextSibling {
			finder(child)
		}
	}
	finder(tableNode)
''','''	stack := []*html.Node{tableNode}
	for len(stack) > 0 {
		node := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if dom.NodeName(node) == "tr" && node != selectedHeaderRowNode {
			collected = append(collected, node)
		}
		for child := node.LastChild; child != nil; child = child.PrevSibling {
			stack = append(stack, child)
		}
	}
''')]),
("n27-flag",'C07',[(CN,'''	for i := 0; i < len(input); {
		r, size := utf8.DecodeRune(input[i:])
''','''	for i := 0; i < len(input); {
		r, size := rune(input[i]), 1
		if r >= utf8.RuneSelf {
			r, size = utf8.DecodeRune(input[i:])
		}
''')]),
("n27-skip",'C07',[(ES,'''		index += skip - 1
''','''		index = index + skip
		index--
''')]),
("n27-skipwhile",'C07',[(ES,'''	for index := 0; index < len(chars); index++ {

		if chars[index] != placeholderByte {
			continue
		}''','''	for index := 0; index < len(chars); index++ {
		for index < len(chars)-1 && chars[index] != placeholderByte {
			index++
		}
		if chars[index] != placeholderByte {
			continue
		}''')]),
("n27-bound",'C07',[(CO,'''	for ; i < len(chars); i++ {
		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == '`' || chars[i] == '~' {
			count++
			continue
		}

		break
	}''','''	for end := len(chars); i < end; {
		if c := chars[i]; c == '`' || c == '~' {
			count++
		} else if c != placeholderByte {
			break
		}
		i++
	}''')]),
("n27-two",'C07',[(CO,'''	for ; i < len(chars); i++ {
		if chars[i] == placeholderByte {
			continue
		}
		if chars[i] == '`' || chars[i] == '~' {
			count++
			continue
		}

		break
	}''','''	for i < len(chars) {
		isFence := chars[i] == '`' || chars[i] == '~'
		if isFence {
			count++
			i++
		}
		if !isFence {
			if chars[i] != placeholderByte {
				break
			}
			i++
		}
	}''')]),
("n27-moved",'C07',[(AD,'''		children := dom.AllChildNodes(node)
		for _, child := range children {
			dom.RemoveNode(child)
			destinationNode.AppendChild(child)
		}''','''		for node.FirstChild != nil {
			child := node.FirstChild
			node.RemoveChild(child)
			destinationNode.AppendChild(child)
		}''')]),
("n27-docorder",'C07',[(EC,'''		node = dom.GetNextNeighborNode(node)
	}''','''		if node.FirstChild != nil {
			node = node.FirstChild
			continue
		}
		for node != nil && node.NextSibling == nil {
			node = node.Parent
		}
		if node != nil {
			node = node.NextSibling
		}
	}''')]),
("n27-collapsedirs",'C07',[(DU,'''		if dom.NodeName(node) == "span" {
			// A span has no special meaning. So we just skip it...
			node = dom.GetNextNeighborNode(node)
			continue
		}
''','''		if dom.NodeName(node) == "span" {
			next := dom.GetNextNeighborNode(node)
			node = next
			continue
		}
''')]),
("n27-divider",'C07',[(DV,'''	if count >= 3 {
		return lastChar - index
	}
	return -1''','''	if count < 3 {
		return -1
	}
	if length := lastChar - index; length > 0 {
		return length
	}
	return -1''')]),
("n27-string",'C07',[(RC,'''	code = bytes.ReplaceAll(code, []byte("\\r"), []byte("\\n"))
''','''	for bytes.Contains(code, []byte("\\r")) {
		code = bytes.Replace(code, []byte("\\r"), []byte("\\n"), 1)
	}
''')]),
]
