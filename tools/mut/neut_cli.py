D='cli/html2markdown/cmd/'
O=D+'io_output.go'; I=D+'io_input.go'; X=D+'exec.go'; F=D+'flags.go'; C=D+'cmd_convert.go'; E=D+'errors.go'; PR=D+'print.go'
M=[
("nc-writefile-helper",None,[(O,'''	flag := os.O_WRONLY | os.O_CREATE

	if override {
		// We add this flag:
		//   O_TRUNC = the existing contents are truncated to zero length
		flag |= os.O_TRUNC
	} else {
		// We add this flag:
		//   O_EXCL = if used with O_CREATE, causes error if file already exists
		flag |= os.O_EXCL
	}

	f, err''','''	flag := openFlags(override)

	f, err'''),(O,'','''
func openFlags(override bool) int {
	if override {
		return os.O_WRONLY | os.O_CREATE | os.O_TRUNC
	}
	return os.O_WRONLY | os.O_CREATE | os.O_EXCL
}
''')]),
("nc-writefile-join",None,[(O,'''	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err''','''	_, writeErr := f.Write(data)
	closeErr := f.Close()
	if writeErr != nil {
		return writeErr
	}
	return closeErr''')]),
("nc-writefile-errjoin",None,[(O,'''	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err''','''	_, err = f.Write(data)
	return errors.Join(err, f.Close())''')]),
("nc-writefile-deferclose",None,[(O,'func WriteFile(filename string, data []byte, override bool) error {','func WriteFile(filename string, data []byte, override bool) (err error) {'),(O,'''	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err''','''	defer func() {
		if err1 := f.Close(); err1 != nil && err == nil {
			err = err1
		}
	}()
	_, err = f.Write(data)
	return err''')]),
("nc-writeoutput-if",None,[(O,'''	switch outputType {
	case outputTypeDirectory:
		{
			err := WriteFile(filepath.Join(cli.config.outputFilepath, filename), markdown, cli.config.outputOverwrite)
			if err != nil {
				if errors.Is(err, os.ErrExist) {
					return fmt.Errorf("output path %q already exists. Use --output-overwrite to replace existing files", cli.config.outputFilepath)
				}

				return fmt.Errorf("error while writing the file into the directory: %w", err)
			}

			return nil
		}
	case outputTypeFile:
		{
			err := WriteFile(cli.config.outputFilepath, markdown, cli.config.outputOverwrite)
			if err != nil {
				if errors.Is(err, os.ErrExist) {
					return fmt.Errorf("output path %q already exists. Use --output-overwrite to replace existing files", cli.config.outputFilepath)
				}

				return fmt.Errorf("error while writing the file: %w", err)
			}

			return nil
		}
	default:
		{
			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
			if err != nil {
				return fmt.Errorf("error while writing to stdout: %w", err)
			}

			return nil
		}
	}
''','''	if outputType != outputTypeDirectory && outputType != outputTypeFile {
		if _, err := fmt.Fprintln(cli.Stdout, string(markdown)); err != nil {
			return fmt.Errorf("error while writing to stdout: %w", err)
		}
		return nil
	}
	target := cli.config.outputFilepath
	what := "error while writing the file: %w"
	if outputType == outputTypeDirectory {
		target = filepath.Join(target, filename)
		what = "error while writing the file into the directory: %w"
	}
	err := WriteFile(target, markdown, cli.config.outputOverwrite)
	if err == nil {
		return nil
	}
	if errors.Is(err, os.ErrExist) {
		return fmt.Errorf("output path %q already exists. Use --output-overwrite to replace existing files", cli.config.outputFilepath)
	}
	return fmt.Errorf(what, err)
''')]),
("nc-writeoutput-stdout-helper",None,[(O,'''			_, err := fmt.Fprintln(cli.Stdout, string(markdown))
			if err != nil {
				return fmt.Errorf("error while writing to stdout: %w", err)
			}

			return nil
''','''			return cli.printMarkdown(markdown)
'''),(O,'','''
func (cli *CLI) printMarkdown(markdown []byte) error {
	if _, err := fmt.Fprintln(cli.Stdout, string(markdown)); err != nil {
		return fmt.Errorf("error while writing to stdout: %w", err)
	}
	return nil
}
''')]),
("nc-run-helper",None,[(X,'''		data, err := cli.readInput(input)
		if err != nil {
			return nil, err
		}

		markdown, err := cli.convert(data)
		if err != nil {
			return nil, err
		}

		err = cli.writeOutput(outputType, input.outputFullFilepath, markdown)
		if err != nil {
			return nil, err
		}
	}
''','''		if err := cli.process(outputType, input); err != nil {
			return nil, err
		}
	}
'''),(X,'','''
func (cli *CLI) process(outputType outputType, in *input) error {
	data, err := cli.readInput(in)
	if err != nil {
		return err
	}
	markdown, err := cli.convert(data)
	if err != nil {
		return err
	}
	return cli.writeOutput(outputType, in.outputFullFilepath, markdown)
}
''')]),
("nc-run-indexloop",None,[(X,'''	for _, input := range inputs {
		data''','''	for i := 0; i < len(inputs); i++ {
		input := inputs[i]
		data''')]),
("nc-run-order",None,[(X,'''	err = ensureOutputDirectories(outputType, cli.config.outputFilepath)
	if err != nil {
		return nil, err
	}

	err = calculateOutputPaths(cli.config.inputFilepath, inputs)
	if err != nil {
		return nil, err
	}
''','''	if err := calculateOutputPaths(cli.config.inputFilepath, inputs); err != nil {
		return nil, err
	}

	if err := ensureOutputDirectories(outputType, cli.config.outputFilepath); err != nil {
		return nil, err
	}
''')]),
("nc-exec-early",None,[(X,'''	if err != nil {
		cli.PrintErr(err)

		OsExiter(1) // General Error
		return
	} else {
		OsExiter(0)
		return
	}
''','''	exitCode := 0
	if err != nil {
		cli.PrintErr(err)
		exitCode = 1
	}
	OsExiter(exitCode)
''')]),
("nc-exec-errorsis",None,[(X,'	if err == flag.ErrHelp {','	if errors.Is(err, flag.ErrHelp) {'),(X,'	"flag"\n','	"errors"\n	"flag"\n')]),
("nc-exec-warn-helper",None,[(X,'''	for _, warning := range warnings {
		cli.PrintWarn(warning)
	}
''','''	cli.printWarnings(warnings)
'''),(X,'','''
func (cli *CLI) printWarnings(warnings []error) {
	for i := range warnings {
		cli.PrintWarn(warnings[i])
	}
}
''')]),
("nc-ensure-switch",None,[(O,'''	if outputType == outputTypeDirectory {

		return os.MkdirAll(outputFilepath, os.ModePerm)
	} else if outputType == outputTypeFile {
		path := filepath.Dir(outputFilepath)
		return os.MkdirAll(path, os.ModePerm)
	} else {
		return nil
	}''','''	dir := outputFilepath
	switch outputType {
	case outputTypeDirectory:
	case outputTypeFile:
		dir = filepath.Dir(outputFilepath)
	default:
		return nil
	}
	return os.MkdirAll(dir, os.ModePerm)''')]),
("nc-names-helper",None,[(O,'''			hash := hashFilepath(relativePath)

			// -> The filename for duplicates
			input.outputFullFilepath = basename + "." + hash[:10] + ".md"
''','''			// -> The filename for duplicates
			input.outputFullFilepath = duplicateName(basename, relativePath)
'''),(O,'','''
func duplicateName(basename string, relativePath string) string {
	hash := hashFilepath(relativePath)
	return basename + "." + hash[:10] + ".md"
}
''')]),
("nc-names-sprintf",None,[(O,'input.outputFullFilepath = basename + "." + hash[:10] + ".md"','input.outputFullFilepath = fmt.Sprintf("%s.%s.md", basename, hash[:10])')]),
("nc-names-local",None,[(O,'''		val := allBasenames[basename]
		if val == 0 {
			// -> The standard filename
			input.outputFullFilepath = basename + ".md"
		} else {''','''		name := basename + ".md"
		if allBasenames[basename] > 0 {'''),(O,'			input.outputFullFilepath = basename + "." + hash[:10] + ".md"\n		}\n','			name = basename + "." + hash[:10] + ".md"\n		}\n		input.outputFullFilepath = name\n')]),
("nc-names-struct-set",None,[(O,'allOutputs := make(map[string]bool)','allOutputs := make(map[string]struct{})'),(O,'if allOutputs[input.outputFullFilepath] {','if _, taken := allOutputs[input.outputFullFilepath]; taken {'),(O,'allOutputs[input.outputFullFilepath] = true','allOutputs[input.outputFullFilepath] = struct{}{}')]),
("nc-names-basename-once",None,[(O,'''		basenameWithExt := filepath.Base(input.inputFullFilepath)
		basename := fileNameWithoutExtension(basenameWithExt)
''','''		basename := fileNameWithoutExtension(filepath.Base(input.inputFullFilepath))
''')]),
("nc-flags-table-deps",None,[(F,'''	if cli.config.tableSkipEmptyRows && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-skip-empty-rows requires --plugin-table to be enabled")
	}
	if cli.config.tableHeaderPromotion && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-header-promotion requires --plugin-table to be enabled")
	}
	if cli.config.tableSpanCellBehavior != "" && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-span-cell-behavior requires --plugin-table to be enabled")
	}
	if cli.config.tablePresentationTables && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-presentation-tables requires --plugin-table to be enabled")
	}
	if cli.config.tableNewlineBehavior != "" && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-newline-behavior requires --plugin-table to be enabled")
	}
	if cli.config.tableCellPaddingBehavior != "" && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-cell-padding-behavior requires --plugin-table to be enabled")
	}
''','''	if !cli.config.enablePluginTable {
		if err := cli.checkTableFlags(); err != nil {
			return err
		}
	}
'''),(F,'','''
func (cli *CLI) checkTableFlags() error {
	if cli.config.tableSkipEmptyRows {
		return fmt.Errorf("--opt-table-skip-empty-rows requires --plugin-table to be enabled")
	}
	if cli.config.tableHeaderPromotion {
		return fmt.Errorf("--opt-table-header-promotion requires --plugin-table to be enabled")
	}
	if cli.config.tableSpanCellBehavior != "" {
		return fmt.Errorf("--opt-table-span-cell-behavior requires --plugin-table to be enabled")
	}
	if cli.config.tablePresentationTables {
		return fmt.Errorf("--opt-table-presentation-tables requires --plugin-table to be enabled")
	}
	if cli.config.tableNewlineBehavior != "" {
		return fmt.Errorf("--opt-table-newline-behavior requires --plugin-table to be enabled")
	}
	if cli.config.tableCellPaddingBehavior != "" {
		return fmt.Errorf("--opt-table-cell-padding-behavior requires --plugin-table to be enabled")
	}
	return nil
}
''')]),
("nc-flags-deps-list",None,[(F,'''	if cli.config.tableSkipEmptyRows && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-skip-empty-rows requires --plugin-table to be enabled")
	}
	if cli.config.tableHeaderPromotion && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-header-promotion requires --plugin-table to be enabled")
	}
	if cli.config.tableSpanCellBehavior != "" && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-span-cell-behavior requires --plugin-table to be enabled")
	}
	if cli.config.tablePresentationTables && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-presentation-tables requires --plugin-table to be enabled")
	}
	if cli.config.tableNewlineBehavior != "" && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-newline-behavior requires --plugin-table to be enabled")
	}
	if cli.config.tableCellPaddingBehavior != "" && !cli.config.enablePluginTable {
		return fmt.Errorf("--opt-table-cell-padding-behavior requires --plugin-table to be enabled")
	}
''','''	tableFlags := []struct {
		name string
		used bool
	}{
		{"opt-table-skip-empty-rows", cli.config.tableSkipEmptyRows},
		{"opt-table-header-promotion", cli.config.tableHeaderPromotion},
		{"opt-table-span-cell-behavior", cli.config.tableSpanCellBehavior != ""},
		{"opt-table-presentation-tables", cli.config.tablePresentationTables},
		{"opt-table-newline-behavior", cli.config.tableNewlineBehavior != ""},
		{"opt-table-cell-padding-behavior", cli.config.tableCellPaddingBehavior != ""},
	}
	for _, f := range tableFlags {
		if f.used && !cli.config.enablePluginTable {
			return fmt.Errorf("--%s requires --plugin-table to be enabled", f.name)
		}
	}
''')]),
("nc-flags-string-helper",None,[(F,'''		if strings.TrimSpace(flagValue) == "" {
			return errors.New("empty string")
		}
		if *target != "" {
			return fmt.Errorf("another value has already been set")
		}

		*target = strings.TrimSpace(flagValue)
		return nil''','''		value := strings.TrimSpace(flagValue)
		switch {
		case value == "":
			return errors.New("empty string")
		case *target != "":
			return fmt.Errorf("another value has already been set")
		default:
			*target = value
			return nil
		}''')]),
("nc-convert-opts",None,[(C,'''		conv.Register.Plugin(
			table.NewTablePlugin(
				table.WithSkipEmptyRows(cli.config.tableSkipEmptyRows),
				table.WithHeaderPromotion(cli.config.tableHeaderPromotion),
				table.WithSpanCellBehavior(table.SpanCellBehavior(cli.config.tableSpanCellBehavior)),
				table.WithPresentationTables(cli.config.tablePresentationTables),
				table.WithNewlineBehavior(table.NewlineBehavior(cli.config.tableNewlineBehavior)),
				table.WithCellPaddingBehavior(table.CellPaddingBehavior(cli.config.tableCellPaddingBehavior)),
			),
		)
''','''		conv.Register.Plugin(cli.tablePlugin())
'''),(C,'','''
func (cli *CLI) tablePlugin() converter.Plugin {
	config := cli.config
	return table.NewTablePlugin(
		table.WithSkipEmptyRows(config.tableSkipEmptyRows),
		table.WithHeaderPromotion(config.tableHeaderPromotion),
		table.WithSpanCellBehavior(table.SpanCellBehavior(config.tableSpanCellBehavior)),
		table.WithPresentationTables(config.tablePresentationTables),
		table.WithNewlineBehavior(table.NewlineBehavior(config.tableNewlineBehavior)),
		table.WithCellPaddingBehavior(table.CellPaddingBehavior(config.tableCellPaddingBehavior)),
	)
}
''')]),
("nc-convert-newconv",None,[(C,'''	doc, err := cli.parseInputWithSelectors(input)
	if err != nil {
		return nil, err
	}

	markdown, err := conv''','''	markdown, err := conv'''),(C,'''func (cli *CLI) convert(input []byte) ([]byte, error) {
''','''func (cli *CLI) convert(input []byte) ([]byte, error) {
	doc, err := cli.parseInputWithSelectors(input)
	if err != nil {
		return nil, err
	}

''')]),
("nc-convert-errorsas",None,[(C,'''		var validationErr *commonmark.ValidateConfigError
		if errors.As(err, &validationErr) {
			return nil, overrideValidationError(validationErr)
		}

		return nil, err
''','''		return nil, explainError(err)
'''),(C,'','''
func explainError(err error) error {
	var validationErr *commonmark.ValidateConfigError
	if !errors.As(err, &validationErr) {
		return err
	}
	return overrideValidationError(validationErr)
}
''')]),
("nc-convert-plugins-list",None,[(C,'''	if cli.config.enablePluginStrikethrough {
		conv.Register.Plugin(strikethrough.NewStrikethroughPlugin())
	}
''','''	var extra []converter.Plugin
	if cli.config.enablePluginStrikethrough {
		extra = append(extra, strikethrough.NewStrikethroughPlugin())
	}
	for _, plugin := range extra {
		conv.Register.Plugin(plugin)
	}
''')]),
("nc-include-loop",None,[(C,'''	root := &html.Node{}
	for _, n := range nodes {
		if hasAncestor(n, root) {
			// The node is inside of another match, so it is already included.
			continue
		}

		dom.RemoveNode(n)
		root.AppendChild(n)
	}
''','''	root := &html.Node{}
	for i := range nodes {
		n := nodes[i]
		// A node inside of another match is already included.
		if !hasAncestor(n, root) {
			dom.RemoveNode(n)
			root.AppendChild(n)
		}
	}
''')]),
("nc-include-empty-first",None,[(C,'''	if len(cli.config.includeSelector) == 0 {
		return doc, nil
	}
	nodes := cascadia.QueryAll(doc, cli.config.includeSelector)
''','''	selector := cli.config.includeSelector
	if len(selector) == 0 {
		return doc, nil
	}
	nodes := cascadia.QueryAll(doc, selector)
''')]),
("nc-exclude-collect",None,[(C,'''	var finder func(node *html.Node)
	finder = func(node *html.Node) {
		if cli.config.excludeSelector.Match(node) {
			dom.RemoveNode(node)
			return
		}

		for child := node.FirstChild; child != nil; child = child.NextSibling {
			// Because we are sometimes removing a node, this causes problems
			// with the for loop. Using `defer` is a cool trick!
			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
			defer finder(child)
		}
	}
	finder(doc)
''','''	var finder func(node *html.Node)
	finder = func(node *html.Node) {
		if cli.config.excludeSelector.Match(node) {
			dom.RemoveNode(node)
			return
		}

		for _, child := range dom.AllChildNodes(node) {
			finder(child)
		}
	}
	finder(doc)
''')]),
("nc-exclude-func",None,[(C,'''	var finder func(node *html.Node)
	finder = func(node *html.Node) {
		if cli.config.excludeSelector.Match(node) {
			dom.RemoveNode(node)
			return
		}

		for child := node.FirstChild; child != nil; child = child.NextSibling {
			// Because we are sometimes removing a node, this causes problems
			// with the for loop. Using `defer` is a cool trick!
			// https://gist.github.com/loopthrough/17da0f416054401fec355d338727c46e
			defer finder(child)
		}
	}
	finder(doc)
''','''	removeMatches(doc, cli.config.excludeSelector)
'''),(C,'','''
func removeMatches(node *html.Node, selector cascadia.SelectorGroup) {
	if selector.Match(node) {
		dom.RemoveNode(node)
		return
	}
	var next *html.Node
	for child := node.FirstChild; child != nil; child = next {
		next = child.NextSibling
		removeMatches(child, selector)
	}
}
''')]),
("nc-parse-inline",None,[(C,'''	r := bytes.NewReader(input)

	doc, err := html.Parse(r)''','''	doc, err := html.Parse(bytes.NewReader(input))''')]),
("nc-input-once",None,[(I,'''	if in.data != nil {
		return in.data, nil
	}

	data, err := os.ReadFile(in.inputFullFilepath)
	if err != nil {
		return nil, err
	}

	return data, nil''','''	if in.data == nil {
		return os.ReadFile(in.inputFullFilepath)
	}
	return in.data, nil''')]),
("nc-stdin-helper",None,[(I,'''		data, err := io.ReadAll(cli.Stdin)
		if err != nil {
			return nil, err
		}
		return []*input{
			{
				inputFullFilepath: defaultBasename,
				data:              data,
			},
		}, nil''','''		in, err := cli.readStdin()
		if err != nil {
			return nil, err
		}
		return []*input{in}, nil'''),(I,'','''
func (cli *CLI) readStdin() (*input, error) {
	data, err := io.ReadAll(cli.Stdin)
	if err != nil {
		return nil, err
	}
	in := &input{inputFullFilepath: defaultBasename}
	in.data = data
	return in, nil
}
''')]),
("nc-inputs-prealloc",None,[(I,'''		var inputs []*input
		for _, match := range matches {
			inputs = append(inputs, &input{
				inputFullFilepath: match,
				data:              nil,
			})
		}''','''		inputs := make([]*input, len(matches))
		for i, match := range matches {
			inputs[i] = &input{inputFullFilepath: match}
		}''')]),
("nc-outtype-switch",None,[(O,'''	if hasFolderSuffix(outputPath) {
		return outputTypeDirectory, nil
	}

	// - - - - - - - - - //
	// We can now assume that the output path specifies a file.
	// But let's make sure...

	if countInputs > 1 {''','''	switch {
	case hasFolderSuffix(outputPath):
		return outputTypeDirectory, nil
	case countInputs > 1:''')]),
("nc-outtype-single",None,[(O,'''	if filepath.Ext(filepath.Base(outputPath)) != "" {
		// With a file extension it is LIKELY to be a file.
		return outputTypeFile, nil
	}

''','')]),
("nc-printerr-buffer",None,[(E,'''	e, _ := extractCLIError(err)
	e.PrintDetails(cli.Stderr)''','''	e, _ := extractCLIError(err)
	var buf bytes.Buffer
	e.PrintDetails(&buf)
	cli.Stderr.Write(buf.Bytes())'''),(E,'import (\n','import (\n	"bytes"\n')]),
("nc-version-sprintf",None,[(D+'cmd_version.go','''	_, err := fmt.Fprintf(
		cli.Stdout,
		"%s\\n\\nGitVersion:  %s\\nGitCommit:   %s\\nBuildDate:   %s\\n",
		projectBinary,
		cli.Release.Version,
		cli.Release.Commit,
		cli.Release.Date,
	)
	return err''','''	text := fmt.Sprintf(
		"%s\\n\\nGitVersion:  %s\\nGitCommit:   %s\\nBuildDate:   %s\\n",
		projectBinary,
		cli.Release.Version,
		cli.Release.Commit,
		cli.Release.Date,
	)
	if _, err := fmt.Fprint(cli.Stdout, text); err != nil {
		return err
	}
	return nil''')]),
("nc-pipe-loop",None,[(X,'''	var err error
	cli.isStdinPipe, err = isPipe(cli.Stdin)
	if err != nil {
		return fmt.Errorf("error while checking stdin for is pipe: %w", err)
	}
	cli.isStdoutPipe, err = isPipe(cli.Stdout)
	if err != nil {
		return fmt.Errorf("error while checking stdout for is pipe: %w", err)
	}
	cli.isStderrPipe, err = isPipe(cli.Stderr)
	if err != nil {
		return fmt.Errorf("error while checking stderr for is pipe: %w", err)
	}
''','''	var err error
	for _, s := range []struct {
		name   string
		stream ReadWriterWithStat
		target *bool
	}{
		{"stdin", cli.Stdin, &cli.isStdinPipe},
		{"stdout", cli.Stdout, &cli.isStdoutPipe},
		{"stderr", cli.Stderr, &cli.isStderrPipe},
	} {
		*s.target, err = isPipe(s.stream)
		if err != nil {
			return fmt.Errorf("error while checking %s for is pipe: %w", s.name, err)
		}
	}
''')]),
]
