D='cli/html2markdown/cmd/'
O=D+'io_output.go'; I=D+'io_input.go'; X=D+'exec.go'; F=D+'flags.go'; C=D+'cmd_convert.go'; E=D+'errors.go'; PR=D+'print.go'
M=[
# C32
("c32-trunc-always","C32",[(O,'''		flag |= os.O_EXCL
''','''		flag |= os.O_EXCL
		if len(data) == 0 {
			flag = os.O_WRONLY | os.O_CREATE | os.O_TRUNC
		}
''')]),
("c32-stat-then-create","C32",[(O,'''		// We add this flag:
		//   O_EXCL = if used with O_CREATE, causes error if file already exists
		flag |= os.O_EXCL
''','''		if _, err := os.Stat(filename); err == nil {
			return os.ErrExist
		}
''')]),
("c32-nottrunc","C32",[(O,'flag |= os.O_TRUNC','flag |= 0')]),
("c32-dir-override","C32",[(O,'WriteFile(filepath.Join(cli.config.outputFilepath, filename), markdown, cli.config.outputOverwrite)','WriteFile(filepath.Join(cli.config.outputFilepath, filename), markdown, cli.config.outputOverwrite || filename == "output.md")')]),
("c32-remove-partial","C32",[(O,'''		err = err1
	}
	return err''','''		err = err1
	}
	if err != nil {
		os.Remove(filename)
	}
	return err''')]),
("c32-retry","C32",[(O,'''	if err != nil {
		return err
	}
	_, err = f.Write(data)''','''	if os.IsPermission(err) || os.IsExist(err) && len(data) > 1<<20 {
		f, err = os.Create(filename)
	}
	if err != nil {
		return err
	}
	_, err = f.Write(data)''')]),
("c32-overwrite-flag-default","C32",[(X,'''	err = ensureOutputDirectories(''','''	if len(inputs) > 1 && outputType == outputTypeDirectory {
		cli.config.outputOverwrite = true
	}
	err = ensureOutputDirectories(''')]),
# C33
("c33-rel","C33",[(O,'''		basenameWithExt := filepath.Base(input.inputFullFilepath)
		basename''','''		basenameWithExt := strings.TrimPrefix(input.inputFullFilepath, globBase+"/")
		basename''')]),
("c33-next-to-input","C33",[(O,'''	case outputTypeDirectory:
		{
			err := WriteFile(filepath.Join(cli.config.outputFilepath, filename)''','''	case outputTypeDirectory:
		{
			err := WriteFile(filepath.Join(filepath.Dir(cli.config.inputFilepath), cli.config.outputFilepath, filename)''')]),
("c33-mkdir-filename","C33",[(O,'''	case outputTypeDirectory:
		{
			err := WriteFile(''','''	case outputTypeDirectory:
		{
			if err := os.MkdirAll(cli.config.inputFilepath, os.ModePerm); err != nil {
				return err
			}
			err := WriteFile(''')]),
("c33-noext","C33",[(O,'input.outputFullFilepath = basename + ".md"','input.outputFullFilepath = basename')]),
("c33-hashraw","C33",[(O,'hash := hashFilepath(relativePath)','hash := relativePath + "0000000000"')]),
("c33-log","C33",[(X,'''	for _, warning := range warnings {''','''	if len(warnings) != 0 {
		os.WriteFile("html2markdown.log", []byte("warnings"), 0644)
	}
	for _, warning := range warnings {'''),(X,'	"fmt"\n','	"fmt"\n	"os"\n')]),
("c33-keep-subdirs","C33",[(O,'''			input.outputFullFilepath = basename + ".md"''','''			input.outputFullFilepath = filepath.Join(filepath.Dir(input.inputFullFilepath), basename+".md")
			if globBase == "." || filepath.IsAbs(globBase) {
				input.outputFullFilepath = basename + ".md"
			}''')]),
# C34
("c34-warn-stdout","C34",[(E,'output := termenv.NewOutput(cli.Stderr)','output := termenv.NewOutput(cli.Stdout)'),(E,'fmt.Fprintf(cli.Stderr, "\\n%s %s\\n\\n", prefix, message)','fmt.Fprintf(cli.Stdout, "\\n%s %s\\n\\n", prefix, message)')]),
("c34-err-stdout","C34",[(E,'e.PrintDetails(cli.Stderr)','e.PrintDetails(cli.Stdout)')]),
("c34-exit0","C34",[(X,'		OsExiter(1) // General Error','		if _, isCLI := extractCLIError(err); !isCLI && len(warnings) > 0 {\n			OsExiter(0)\n			return\n		}\n		OsExiter(1) // General Error')]),
("c34-help-err-lost","C34",[(X,'		err = cli.printUsage()','		_ = cli.printUsage()\n		err = nil')]),
("c34-first-only","C34",[(X,'''		err = cli.writeOutput(outputType, input.outputFullFilepath, markdown)
		if err != nil {
			return nil, err
		}
''','''		err = cli.writeOutput(outputType, input.outputFullFilepath, markdown)
		if err != nil {
			return nil, err
		}
		if outputType == outputTypeFile {
			break
		}
''')]),
("c34-skip-empty","C34",[(X,'''		markdown, err := cli.convert(data)''','''		if len(data) == 0 && len(inputs) > 1 {
			continue
		}
		markdown, err := cli.convert(data)''')]),
("c34-warnings-exit","C34",[(X,'''	if err != nil {
		cli.PrintErr(err)
''','''	if err == nil && len(warnings) != 0 {
		OsExiter(2)
		return
	}
	if err != nil {
		cli.PrintErr(err)
''')]),
("c34-silent","C34",[(E,'''	e, _ := extractCLIError(err)
	e.PrintDetails(cli.Stderr)''','''	e, ok := extractCLIError(err)
	if ok || cli.isStderrPipe {
		e.PrintDetails(cli.Stderr)
	}''')]),
("c34-progress","C34",[(X,'''		err = cli.writeOutput(outputType,''','''		if outputType == outputTypeDirectory && !cli.isStdoutPipe {
			fmt.Fprintln(cli.Stdout, input.outputFullFilepath)
		}
		err = cli.writeOutput(outputType,''')]),
("c34-version-continue","C34",[(X,'		return nil, cli.printVersion()','		if err := cli.printVersion(); err != nil {\n			return nil, err\n		}\n		if cli.config.inputFilepath == "" {\n			return nil, nil\n		}')]),
# C35
("c35-write-shadow","C35",[(O,'''	_, err = f.Write(data)
	if err1''','''	if _, err := f.Write(data); err != nil {
		_ = err
	}
	if err1''')]),
("c35-close","C35",[(O,'''	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
''','''	f.Close()
''')]),
("c35-deferclose","C35",[(O,'''	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err''','''	defer f.Close()
	_, err = f.Write(data)
	return err''')]),
("c35-close-overwrites","C35",[(O,'''	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err''','''	err = f.Close()
	return err''')]),
("c35-stdout","C35",[(O,'''			if err != nil {
				return fmt.Errorf("error while writing to stdout: %w", err)
			}
''','''			if err != nil && !cli.isStdoutPipe {
				return fmt.Errorf("error while writing to stdout: %w", err)
			}
''')]),
("c35-mkdir","C35",[(O,'''		path := filepath.Dir(outputFilepath)
		return os.MkdirAll(path, os.ModePerm)''','''		path := filepath.Dir(outputFilepath)
		os.MkdirAll(path, os.ModePerm)
		return nil''')]),
("c35-exist-skip","C35",[(O,'''				if errors.Is(err, os.ErrExist) {
					return fmt.Errorf("output path %q already exists. Use --output-overwrite to replace existing files", cli.config.outputFilepath)
				}

				return fmt.Errorf("error while writing the file into''','''				if errors.Is(err, os.ErrPermission) {
					return nil
				}
				if errors.Is(err, os.ErrExist) {
					return fmt.Errorf("output path %q already exists. Use --output-overwrite to replace existing files", cli.config.outputFilepath)
				}

				return fmt.Errorf("error while writing the file into''')]),
("c35-readall","C35",[(I,'''		data, err := io.ReadAll(cli.Stdin)
		if err != nil {
			return nil, err
		}''','''		data, err := io.ReadAll(cli.Stdin)
		if err != nil && len(data) == 0 {
			return nil, err
		}''')]),
("c35-readfile","C35",[(I,'''	data, err := os.ReadFile(in.inputFullFilepath)
	if err != nil {
		return nil, err
	}''','''	data, err := os.ReadFile(in.inputFullFilepath)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}''')]),
("c35-glob","C35",[(I,'''		if err != nil {
			return nil, err
		}
		if len(matches) == 0 {''','''		if err != nil && err != doublestar.ErrBadPattern {
			return nil, err
		}
		if len(matches) == 0 {
			if err != nil {
				return nil, nil
			}''')]),
("c35-exclude-lost","C35",[(C,'''	err = cli.excludeNodesFromDoc(doc)
	if err != nil {
		return nil, err
	}
''','''	cli.excludeNodesFromDoc(doc)
''')]),
("c35-valid-lost","C35",[(C,'''			return nil, overrideValidationError(validationErr)''','''			overrideValidationError(validationErr)
			return markdown, nil''')]),
("c35-usage","C35",[(D+'cmd_help.go','''	_, err := fmt.Fprint(cli.Stdout, cli.usageText.String())
	return err''','''	fmt.Fprint(cli.Stdout, cli.usageText.String())
	return nil''')]),
("c35-last-error-wins","C35",[(X,'''	for _, input := range inputs {
		data, err := cli.readInput(input)''','''	var last error
	for _, input := range inputs {
		data, err := cli.readInput(input)'''),(X,'''		err = cli.writeOutput(outputType, input.outputFullFilepath, markdown)
		if err != nil {
			return nil, err
		}
	}

	return nil, nil''','''		last = cli.writeOutput(outputType, input.outputFullFilepath, markdown)
	}

	return nil, last''')]),
("c35-sel","C35",[(F,'''		sel, err := cascadia.ParseGroup(flagValue)
		if err != nil {''','''		sel, err := cascadia.ParseGroup(flagValue)
		if err != nil && len(*target) == 0 {''')]),
# C36
("c36-swap","C36",[(C,'table.WithPresentationTables(cli.config.tablePresentationTables)','table.WithPresentationTables(cli.config.tableHeaderPromotion)')]),
("c36-domain","C36",[(C,'converter.WithDomain(cli.config.domain)','converter.WithDomain("")')]),
("c36-domain-ifinput","C36",[(C,'''	markdown, err := conv.ConvertNode(doc, converter.WithDomain(cli.config.domain))''','''	domain := cli.config.domain
	if len(cli.config.includeSelector) > 0 {
		domain = ""
	}
	markdown, err := conv.ConvertNode(doc, converter.WithDomain(domain))''')]),
("c36-wrongfield","C36",[(F,'cli.flags.StringVar(&cli.config.tableNewlineBehavior, "opt-table-newline-behavior"','cli.flags.StringVar(&cli.config.tableCellPaddingBehavior, "opt-table-newline-behavior"')]),
("c36-strike-needs-table","C36",[(C,'	if cli.config.enablePluginStrikethrough {','	if cli.config.enablePluginStrikethrough && !cli.config.enablePluginTable {')]),
("c36-dep-missing","C36",[(F,'	if cli.config.tableCellPaddingBehavior != "" && !cli.config.enablePluginTable {','	if cli.config.tableCellPaddingBehavior != "" && !cli.config.enablePluginTable && !cli.config.enablePluginStrikethrough {')]),
("c36-default-strong","C36",[(F,'''		"opt-strong-delimiter",
		"**",''','''		"opt-strong-delimiter",
		"__",''')]),
("c36-sel-replace","C36",[(F,'*target = append(*target, sel...)','*target = sel')]),
("c36-excl-include","C36",[(F,'cli.selectorFlag(&cli.config.excludeSelector, "exclude-selector"','cli.selectorFlag(&cli.config.includeSelector, "exclude-selector"')]),
("c36-v-lost","C36",[(F,'cli.flags.BoolVar(&cli.config.version, "v", false','cli.flags.BoolVar(new(bool), "v", false')]),
("c36-output-lower","C36",[(F,'*target = strings.TrimSpace(flagValue)','*target = strings.ToLower(strings.TrimSpace(flagValue))')]),
("c36-strong-ignored","C36",[(C,"\t\t\t\tcommonmark.WithStrongDelimiter(cli.config.strongDelimiter)","\t\t\t\tcommonmark.WithStrongDelimiter(\"**\")")]),
("c36-overwrite-reset","C36",[(X,'''	inputs, err := cli.listInputs()''','''	if len(cli.config.includeSelector) > 0 {
		cli.config.domain = ""
	}
	inputs, err := cli.listInputs()''')]),
("c36-header-only-skip","C36",[(C,'table.WithHeaderPromotion(cli.config.tableHeaderPromotion)','table.WithHeaderPromotion(cli.config.tableHeaderPromotion && cli.config.tableSkipEmptyRows)')]),
# C38
("c38-nocheck","C38",[(O,'''		if allOutputs[input.outputFullFilepath] {''','''		if allOutputs[input.outputFullFilepath] && globBase == "" {''')]),
("c38-per","C38",[(O,'''		allOutputs[input.outputFullFilepath] = true

		allBasenames[basename]++''','''		if val == 0 {
			allOutputs[input.outputFullFilepath] = true
		}

		allBasenames[basename]++''')]),
("c38-key","C38",[(O,'''		if allOutputs[input.outputFullFilepath] {''','''		if allOutputs[input.inputFullFilepath] {''')]),
("c38-late","C38",[(O,'''		allOutputs[input.outputFullFilepath] = true
''','''		allOutputs[input.outputFullFilepath] = true
		input.outputFullFilepath = strings.ToLower(input.outputFullFilepath)
''')]),
("c38-multi-file","C38",[(O,'''	if countInputs > 1 {
		// There are multiple inputs,''','''	if countInputs > 1 && filepath.Ext(outputPath) == "" {
		// There are multiple inputs,''')]),
("c38-remove","C38",[(O,'''		if allOutputs[input.outputFullFilepath] {
			return fmt.Errorf("the input %q would be written to %q just like another input", input.inputFullFilepath, input.outputFullFilepath)
		}
''','')]),
]
