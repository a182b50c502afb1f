B='plugin/base/base.go'
C='cli/html2markdown/cmd/cmd_convert.go'
LOOP='''		for child := node.FirstChild; child != nil; child = child.NextSibling {
			// Because we are sometimes removing a node, this causes problems
			// with the for loop. Using `defer` is a cool trick!
			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
			defer finder(child)
		}
'''
RM='''		if tagType, _ := ctx.GetTagType(name); tagType == converter.TagTypeRemove {
			dom.RemoveNode(node)
			return
		}
'''
EX='''		if cli.config.excludeSelector.Match(node) {
			dom.RemoveNode(node)
			return
		}
'''
INC='''	for _, n := range nodes {
		if hasAncestor(n, root) {
			// The node is inside of another match, so it is already included.
			continue
		}

		dom.RemoveNode(n)
		root.AppendChild(n)
	}
'''
M=[
("c12-nodefer","C12",[(B,"			defer finder(child)","			finder(child)")]),
("c12-skip-input-type","C12",[(B,RM,'''		if tagType, _ := ctx.GetTagType(name); tagType == converter.TagTypeRemove && (name != "input" || node.Attr != nil) {
			dom.RemoveNode(node)
			return
		}
''')]),
("c12-inline-skip","C12",[(B,RM,'''		tagType, known := ctx.GetTagType(name)
		if tagType == converter.TagTypeRemove {
			dom.RemoveNode(node)
			return
		}
		if !known {
			return
		}
''')]),
("c12-pre","C12",[(B,RM,RM+'''		if name == "pre" {
			return
		}
''')]),
("c12-elements","C12",[(B,LOOP,'''		for _, child := range dom.AllChildElements(node) {
			finder(child)
		}
''')]),
("c12-break","C12",[(B,LOOP,'''		for _, child := range dom.AllChildNodes(node) {
			finder(child)
			if child.Parent == nil && child.NextSibling == nil {
				break
			}
		}
''')]),
("c12-unwrap","C12",[(B,"			dom.RemoveNode(node)\n			return\n		}\n\n		for child","			dom.UnwrapNode(node)\n			return\n		}\n\n		for child")]),
("c12-no-textarea","C12",[(B,'''	conv.Register.TagType("textarea", converter.TagTypeRemove, converter.PriorityStandard)
''','')]),
("c12-late","C12",[(B,"b.preRenderRemove, converter.PriorityEarly","b.preRenderRemove, converter.PriorityStandard+1")]),
("c12-block-noscript","C12",[(B,'conv.Register.TagType("noscript", converter.TagTypeRemove','conv.Register.TagType("noscript", converter.TagTypeBlock')]),
("c12-earlier","C12",[('plugin/table/table.go','	conv.Register.Renderer','	conv.Register.TagType("input", converter.TagTypeInline, converter.PriorityEarly)\n	conv.Register.Renderer')]),
("c12-first-child","C12",[(B,"	finder(doc)\n","	finder(doc.FirstChild)\n")]),
("c12-last","C12",[(B,"for child := node.FirstChild; child != nil; child = child.NextSibling {","for child := node.FirstChild; child != node.LastChild; child = child.NextSibling {")]),
("c12-cond-doc","C12",[(B,"	finder(doc)\n",'	if doc.Type == html.DocumentNode {\n		finder(doc)\n	}\n')]),
("c12-comment-kept","C12",[(B,RM,'''		if tagType, _ := ctx.GetTagType(name); tagType == converter.TagTypeRemove {
			if node.Type == html.CommentNode && strings.HasPrefix(node.Data, "!") {
				return
			}
			dom.RemoveNode(node)
			return
		}
''')]),
# neutral
("n12-all",None,[(B,LOOP,'''		for _, child := range dom.AllChildNodes(node) {
			finder(child)
		}
''')]),
("n12-next",None,[(B,LOOP,'''		for child := node.FirstChild; child != nil; {
			next := child.NextSibling
			finder(child)
			child = next
		}
''')]),
("n12-text-early",None,[(B,RM,'''		if node.FirstChild == nil && name == "#text" {
			return
		}
'''+RM)]),
("n12-method",None,[(B,'''	var finder func(node *html.Node)
	finder = func(node *html.Node) {
		name := dom.NodeName(node)

'''+RM+'''
'''+LOOP+'''	}
	finder(doc)
''','''	b.removeNodes(ctx, doc)
'''),(B,'','''
func (b *base) removeNodes(ctx converter.Context, node *html.Node) {
	if shouldRemove(ctx, node) {
		dom.RemoveNode(node)
		return
	}

	var children []*html.Node
	for c := node.FirstChild; c != nil; c = c.NextSibling {
		children = append(children, c)
	}
	for _, child := range children {
		b.removeNodes(ctx, child)
	}
}

func shouldRemove(ctx converter.Context, node *html.Node) bool {
	tagType, ok := ctx.GetTagType(dom.NodeName(node))
	return ok && tagType == converter.TagTypeRemove
}
''')]),
("n12-list",None,[(B,'''	conv.Register.TagType("#comment", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("head", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("script", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("style", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("link", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("meta", converter.TagTypeRemove, converter.PriorityStandard)

	conv.Register.TagType("iframe", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("noscript", converter.TagTypeRemove, converter.PriorityStandard)

	conv.Register.TagType("input", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("textarea", converter.TagTypeRemove, converter.PriorityStandard)
''','''	for _, name := range []string{
		"#comment", "head", "script", "style", "link", "meta",
		"iframe", "noscript",
		"input", "textarea",
	} {
		conv.Register.TagType(name, converter.TagTypeRemove, converter.PriorityStandard)
	}
''')]),
("n12-listvar",None,[(B,'''	conv.Register.TagType("#comment", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("head", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("script", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("style", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("link", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("meta", converter.TagTypeRemove, converter.PriorityStandard)

	conv.Register.TagType("iframe", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("noscript", converter.TagTypeRemove, converter.PriorityStandard)

	conv.Register.TagType("input", converter.TagTypeRemove, converter.PriorityStandard)
	conv.Register.TagType("textarea", converter.TagTypeRemove, converter.PriorityStandard)
''','''	registerRemoved(conv, removedTags...)
'''),(B,'','''
var removedTags = []string{
	"#comment", "head", "script", "style", "link", "meta",
	"iframe", "noscript",
	"input", "textarea",
}

func registerRemoved(conv *converter.Converter, names ...string) {
	for i := 0; i < len(names); i++ {
		conv.Register.TagType(names[i], converter.TagTypeRemove, converter.PriorityStandard)
	}
}
''')]),
("n12-find",None,[(B,'''	var finder func(node *html.Node)
	finder = func(node *html.Node) {
		name := dom.NodeName(node)

'''+RM+'''
'''+LOOP+'''	}
	finder(doc)
''','''	nodes := dom.FindAllNodes(doc, func(node *html.Node) bool {
		tagType, _ := ctx.GetTagType(dom.NodeName(node))
		return tagType == converter.TagTypeRemove
	})
	for _, node := range nodes {
		dom.RemoveNode(node)
	}
''')]),
("n12-else",None,[(B,RM+'\n'+LOOP,'''		tagType, _ := ctx.GetTagType(name)
		switch tagType {
		case converter.TagTypeRemove:
			dom.RemoveNode(node)
		default:
			for child := node.FirstChild; child != nil; child = child.NextSibling {
				defer finder(child)
			}
		}
''')]),
("n12-deferfunc",None,[(B,"			defer finder(child)","			defer func(c *html.Node) { finder(c) }(child)")]),
# C37
("c37-nested","C37",[(C,INC,'''	for _, n := range nodes {
		dom.RemoveNode(n)
		root.AppendChild(n)
	}
''')]),
("c37-parent-only","C37",[(C,"		if hasAncestor(n, root) {","		if n.Parent == root {")]),
("c37-limit","C37",[(C,"	root := &html.Node{}\n","	root := &html.Node{}\n	if len(nodes) > 1000 {\n		nodes = nodes[:1000]\n	}\n")]),
("c37-first-only","C37",[(C,"		root.AppendChild(n)\n	}\n","		root.AppendChild(n)\n		if dom.NodeName(n) == \"body\" {\n			break\n		}\n	}\n")]),
("c37-skip-empty","C37",[(C,"		dom.RemoveNode(n)\n		root.AppendChild(n)","		if n.FirstChild == nil {\n			continue\n		}\n		dom.RemoveNode(n)\n		root.AppendChild(n)")]),
("c37-reverse","C37",[(C,INC,'''	for i := len(nodes) - 1; i >= 0; i-- {
		n := nodes[i]
		if hasAncestor(n, root) {
			continue
		}
		dom.RemoveNode(n)
		root.InsertBefore(n, root.FirstChild)
	}
''')]),
("c37-query-one","C37",[(C,"	nodes := cascadia.QueryAll(doc, cli.config.includeSelector)","	nodes := cascadia.QueryAll(doc, cli.config.includeSelector[0])")]),
("c37-excl-nodefer","C37",[(C,"			defer finder(child)","			finder(child)")]),
("c37-excl-unwrap","C37",[(C,EX,'''		if cli.config.excludeSelector.Match(node) {
			if node.FirstChild == nil {
				dom.RemoveNode(node)
				return
			}
			dom.UnwrapNode(node)
			return
		}
''')]),
("c37-excl-not-doc","C37",[(C,"	finder(doc)\n","	finder(doc.FirstChild)\n")]),
("c37-excl-skip-inline","C37",[(C,EX,EX+'''		if node.Type == html.ElementNode && dom.NameIsInlineNode(node.Data) {
			return
		}
''')]),
("c37-excl-before","C37",[(C,'''	doc, err = cli.includeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}

	err = cli.excludeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}
''','''	err = cli.excludeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}

	doc, err = cli.includeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}
''')]),
("c37-excl-or","C37",[(C,'''	err = cli.excludeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}
''','''	if len(cli.config.includeSelector) == 0 {
		err = cli.excludeNodesFromDoc(doc)
		if err != nil {
			return nil, err
		}
	}
''')]),
("c37-include-empty","C37",[(C,"	return root, nil\n","	if root.FirstChild == nil {\n		return doc, nil\n	}\n	return root, nil\n")]),
("c37-excl-include-sel","C37",[(C,"		if cli.config.excludeSelector.Match(node) {","		if cli.config.includeSelector.Match(node) {")]),
("c37-clone","C37",[(C,EX,'''		if cli.config.excludeSelector.Match(node) || node.Type == html.DoctypeNode {
			dom.RemoveNode(node)
			return
		}
''')]),
("n37-order",None,[(C,'''	var finder func(node *html.Node)
	finder = func(node *html.Node) {
'''+EX,'''	selector := cli.config.excludeSelector
	var finder func(node *html.Node)
	finder = func(node *html.Node) {
		if matched := selector.Match(node); matched {
			dom.RemoveNode(node)
			return
		}
''')]),
("n37-move",None,[(C,'''		dom.RemoveNode(n)
		root.AppendChild(n)
	}
''','''		moveNode(root, n)
	}
'''),(C,'','''
func moveNode(dst, n *html.Node) {
	dom.RemoveNode(n)
	dst.AppendChild(n)
}
''')]),
("n37-both",None,[(C,'''	doc, err = cli.includeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}

	err = cli.excludeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}

	return doc, nil
''','''	return cli.applySelectors(doc)
'''),(C,'','''
func (cli *CLI) applySelectors(doc *html.Node) (*html.Node, error) {
	included, err := cli.includeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}
	if err := cli.excludeNodesFromDoc(included); err != nil {
		return nil, err
	}
	return included, nil
}
''')]),
]
