C='collapse/collapse.go'; I='collapse/is_node.go'; B='plugin/base/base.go'; D='internal/domutils/domutils.go'; A='internal/domutils/add_space.go'; T='internal/domutils/alternatives.go'; J='internal/domutils/adjacent.go'; H='plugin/commonmark/handle_pre_render.go'; K='plugin/commonmark/commonmark.go'
M=[
("c30-default-code",'C30',[(I,'''	return name == "pre" || name == "code"''','''	return name == "pre" || (name == "code" && node.FirstChild != nil && node.FirstChild == node.LastChild)''')]),
("c30-base-override",'C30',[(B,'''			return dom.NameIsBlockNode(tagName)
		},
''','''			return dom.NameIsBlockNode(tagName)
		},
		IsPreformattedNode: func(node *html.Node) bool {
			return dom.NodeName(node) == "pre"
		},
''')]),
("c30-base-class",'C30',[(B,'''			return dom.NameIsBlockNode(tagName)
		},
''','''			return dom.NameIsBlockNode(tagName)
		},
		IsPreformattedNode: func(node *html.Node) bool {
			name := dom.NodeName(node)
			return (name == "pre" || name == "code") && !dom.HasClass(node, "wrap")
		},
''')]),
("c30-next-first",'C30',[(C,'''	if (prev != nil && prev.Parent == current) || domFuncs.IsPreformattedNode(current) {''','''	if (prev != nil && prev.Parent == current) || (domFuncs.IsPreformattedNode(current) && prev != nil) {''')]),
("c30-inner-pre",'C30',[(C,'''				prevText = nil
				keepLeadingWs = true
''','''				prevText = nil
				keepLeadingWs = true

				if c := node.FirstChild; c != nil && c == node.LastChild && c.Type == html.TextNode && domFuncs.IsBlockNode(node.Parent) {
					c.Data = replaceAnyWhitespaceWithSpace(c.Data)
				}
''')]),
("c30-addspace",'C30',[(A,"if isOuterNode(node) && !isInsideCode(node) {","if isOuterNode(node) {")]),
("c30-addspace-parent",'C30',[(A,"if isOuterNode(node) && !isInsideCode(node) {",'if isOuterNode(node) && (node.Parent == nil || !nameIsCode(dom.NodeName(node.Parent))) {')]),
("c30-iscode-pre",'C30',[(D,'''	case "pre", "code", "var",''','''	case "code", "var",''')]),
("c30-alt-return",'C30',[(T,'''			return
		}

		for child''','''			isInsideLeafBlock = true
		}

		for child''')]),
("c30-alt-order",'C30',[(T,'''		if nameIsCode(name) {''','''		if nameIsCode(name) && isInsideLeafBlock {''')]),
("c30-trim-merge",'C30',[(J,'''			prev.Data += c.Data
''','''			prev.Data = strings.TrimRight(prev.Data, "\\n") + c.Data
'''),(J,'import (\n','import (\n	"strings"\n\n')]),
("c30-new-step",'C30',[(K,"	conv.Register.PreRenderer(cm.handlePreRender, converter.PriorityStandard)\n",'''	conv.Register.PreRenderer(cm.handlePreRender, converter.PriorityStandard)
	conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
		for _, node := range dom.AllNodes(doc) {
			if node.Type == html.TextNode {
				node.Data = strings.ReplaceAll(node.Data, "\\u00ad", "")
			}
		}
	}, converter.PriorityEarly)
'''),(K,'import (\n','import (\n	"github.com/JohannesKaufmann/dom"\n')]),
("c30-empty-text",'C30',[(J,'''			MergeAdjacentTextNodes(c)
''','''			MergeAdjacentTextNodes(c)
			if c.Type == html.TextNode && len(c.Data) == 1 && next != nil && c.Data[0] == '\\n' && next.NextSibling == nil {
				n.RemoveChild(c)
				c = next
				continue
			}
''')]),
("c30-bom",'C30',[(B,'''	// After removing elements''','''	var cleanText func(node *html.Node)
	cleanText = func(node *html.Node) {
		if node.Type == html.TextNode {
			node.Data = strings.ReplaceAll(node.Data, "\\u2063", "")
		}
		for child := node.FirstChild; child != nil; child = child.NextSibling {
			cleanText(child)
		}
	}
	cleanText(doc)

	// After removing elements''')]),
# neutrals
("n30-bom-guard",None,[(B,'''	// After removing elements''','''	var cleanText func(node *html.Node)
	cleanText = func(node *html.Node) {
		switch dom.NodeName(node) {
		case "pre", "code":
			return
		}
		if node.Type == html.TextNode {
			node.Data = strings.ReplaceAll(node.Data, "\\u2063", "")
		}
		for child := node.FirstChild; child != nil; child = child.NextSibling {
			cleanText(child)
		}
	}
	cleanText(doc)

	// After removing elements''')]),
("n30-inside-rec",None,[(D,'''	for p := node.Parent; p != nil; p = p.Parent {
		if nameIsCode(dom.NodeName(p)) {
			return true
		}
	}
	return false
''','''	if node.Parent == nil {
		return false
	}
	return nameIsCode(dom.NodeName(node.Parent)) || isInsideCode(node.Parent)
''')]),
("n30-inside-while",None,[(D,'''	for p := node.Parent; p != nil; p = p.Parent {
		if nameIsCode(dom.NodeName(p)) {
			return true
		}
	}
	return false
''','''	found := false
	p := node.Parent
	for p != nil && !found {
		found = nameIsCode(dom.NodeName(p))
		p = p.Parent
	}
	return found
''')]),
("n30-nextnode",None,[(C,'''	if (prev != nil && prev.Parent == current) || domFuncs.IsPreformattedNode(current) {
		if current.NextSibling != nil {
			return current.NextSibling
		}

		return current.Parent
	}

	if current.FirstChild != nil {
		return current.FirstChild
	}
	if current.NextSibling''','''	comesFromBelow := prev != nil && prev.Parent == current
	goesBelow := !comesFromBelow && !domFuncs.IsPreformattedNode(current)
	if goesBelow && current.FirstChild != nil {
		return current.FirstChild
	}
	if current.NextSibling''')]),
("n30-collapse-helper",None,[(C,'''				if prevText != nil {
					prevText.Data = strings.TrimSuffix(prevText.Data, " ")
				}
''','''				trimEnd(prevText)
'''),(C,'''	if prevText != nil {
		prevText.Data = strings.TrimSuffix(prevText.Data, " ")
		if prevText''','''	trimEnd(prevText)
	if prevText != nil {
		if prevText'''),(C,"func Collapse(",'''func trimEnd(n *html.Node) {
	if n == nil {
		return
	}
	n.Data = strings.TrimSuffix(n.Data, " ")
}

func Collapse(''')]),
("n30-fill",None,[(C,'''	if domFuncs.IsPreformattedNode == nil {
		domFuncs.IsPreformattedNode = defaultIsPreformattedNode
	}
	return domFuncs
''','''	filled := *domFuncs
	if filled.IsPreformattedNode == nil {
		filled.IsPreformattedNode = defaultIsPreformattedNode
	}
	return &filled
''')]),
("n30-default-switch",None,[(I,'''	return name == "pre" || name == "code"''','''	switch name {
	case "code":
		return true
	case "pre":
		return true
	default:
		return false
	}''')]),
("n30-alt-slice",None,[(T,'''		for child := node.FirstChild; child != nil; child = child.NextSibling {
			defer finder(child, isInsideLeafBlock, isInsideInline)
		}
''','''		children := dom.AllChildNodes(node)
		for i := len(children) - 1; i >= 0; i-- {
			finder(children[i], isInsideLeafBlock, isInsideInline)
		}
''')]),
("n30-addspace-helper",None,[(A,'''				prev := getPrevTextNode(node)
				if prev != nil {
					prev.Data = prev.Data + " "
				}
''','''				spaceBefore(node)
'''),(A,"func AddSpace(",'''func spaceBefore(node *html.Node) {
	prev := getPrevTextNode(node)
	if prev == nil {
		return
	}
	prev.Data += " "
}
func AddSpace('''),(A,"		if isOuterNode(node) && !isInsideCode(node) {",'''		matches := isOuterNode(node)
		if matches && isInsideCode(node) {
			matches = false
		}
		if matches {''')]),
]
