V='plugin/commonmark/validation.go'
O='plugin/commonmark/options.go'
C='plugin/commonmark/commonmark.go'
T='plugin/table/table.go'
M=[
("c10-strong-extra",'C10',[(V,'[]string{"__", "**"}','[]string{"__", "**", "***"}')]),
("c10-em-dropped",'C10',[(V,'''	if !contains([]string{"_", "*"}, cfg.EmDelimiter) {
		return''','''	if cfg.StrongDelimiter == "__" && !contains([]string{"_", "*"}, cfg.EmDelimiter) {
		return''')]),
("c10-bullet-prefix",'C10',[(V,'''	if !contains([]string{"-", "+", "*"}, cfg.BulletListMarker) {''','''	if !contains([]string{"-", "+", "*"}, cfg.BulletListMarker[:1]) {''')]),
("c10-fence-hasprefix",'C10',[(V,'''	if !contains([]string{"```", "~~~"}, cfg.CodeBlockFence) {''','''	if !strings.HasPrefix(cfg.CodeBlockFence, "```") && !strings.HasPrefix(cfg.CodeBlockFence, "~~~") {''')]),
("c10-contains-substr",'C10',[(V,'''		if val == searchVal {''','''		if val == searchVal || strings.Contains(val, searchVal) {''')]),
("c10-contains-fold",'C10',[(V,'''		if val == searchVal {''','''		if strings.EqualFold(val, searchVal) {''')]),
("c10-wrongfield",'C10',[(V,'''	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyContentBehavior)) {''','''	if !contains(possibleLinkBehaviors, string(cfg.LinkEmptyHrefBehavior)) {''')]),
("c10-hr-off",'C10',[(V,'''	if !isThematicBreak(cfg.HorizontalRule) {
		return''','''	if cfg.HorizontalRule == "" {
		return''')]),
("c10-fill-normalise",'C10',[(O,'''	if cfg.HeadingStyle == "" {
		cfg.HeadingStyle = "atx"
	}''','''	if cfg.HeadingStyle != "setext" {
		cfg.HeadingStyle = "atx"
	}''')]),
("c10-init-ignore",'C10',[(C,'''	if err := validateConfig(&cm.config); err != nil {
		return err
	}''','''	if err := validateConfig(&cm.config); err != nil && cm.HeadingStyle != HeadingStyleSetext {
		return err
	}''')]),
("c10-table-pad-default",'C10',[(T,'''			return fmt.Errorf("unknown value %q for cell padding behavior", behavior)''','''			p.cellPaddingBehavior = CellPaddingBehaviorAligned
			return nil''')]),
("c10-table-newline-any",'C10',[(T,'''		case NewlineBehaviorSkip, NewlineBehaviorPreserve:
			p.newlineBehavior''','''		case NewlineBehaviorSkip, NewlineBehaviorPreserve, "keep":
			p.newlineBehavior''')]),
# neutral
("n10-map",None,[(V,'''	if !contains([]string{"_", "*"}, cfg.EmDelimiter) {''','''	allowed := map[string]bool{"_": true, "*": true}
	if !allowed[cfg.EmDelimiter] {'''),(V,'''	if !contains([]string{"-", "+", "*"}, cfg.BulletListMarker) {''','''	if _, ok := bulletMarkers[cfg.BulletListMarker]; !ok {'''),(V,'','''
var bulletMarkers = map[string]struct{}{"-": {}, "+": {}, "*": {}}
''')]),
("n10-switch",None,[(V,'''	if !contains([]string{"_", "*"}, cfg.EmDelimiter) {
		return &''','''	switch cfg.EmDelimiter {
	case "_", "*":
	default:
		return &''')]),
("n10-table-driven",None,[(V,'''	if !contains([]string{"_", "*"}, cfg.EmDelimiter) {
		return &ValidateConfigError{
			Key:                "EmDelimiter",
			Value:              cfg.EmDelimiter,
			patternDescription: `exactly 1 character of "*" or "_"`,
		}
	}
	if !contains([]string{"__", "**"}, cfg.StrongDelimiter) {
		return &ValidateConfigError{
			Key:                "StrongDelimiter",
			Value:              cfg.StrongDelimiter,
			patternDescription: `exactly 2 characters of "**" or "__"`,
		}
	}
''','''	if err := checkOneOf("EmDelimiter", cfg.EmDelimiter, `exactly 1 character of "*" or "_"`, "_", "*"); err != nil {
		return err
	}
	if err := checkOneOf("StrongDelimiter", cfg.StrongDelimiter, `exactly 2 characters of "**" or "__"`, "__", "**"); err != nil {
		return err
	}
'''),(V,'','''
func checkOneOf(key, value, description string, allowed ...string) error {
	if contains(allowed, value) {
		return nil
	}
	return &ValidateConfigError{Key: key, Value: value, patternDescription: description}
}
''')]),
("n10-loop-table",None,[(V,'''	if !contains([]string{"_", "*"}, cfg.EmDelimiter) {
		return &ValidateConfigError{
			Key:                "EmDelimiter",
			Value:              cfg.EmDelimiter,
			patternDescription: `exactly 1 character of "*" or "_"`,
		}
	}
	if !contains([]string{"__", "**"}, cfg.StrongDelimiter) {
		return &ValidateConfigError{
			Key:                "StrongDelimiter",
			Value:              cfg.StrongDelimiter,
			patternDescription: `exactly 2 characters of "**" or "__"`,
		}
	}
''','''	rules := []struct {
		key, value, description string
		allowed                 []string
	}{
		{"EmDelimiter", cfg.EmDelimiter, `exactly 1 character of "*" or "_"`, []string{"_", "*"}},
		{"StrongDelimiter", cfg.StrongDelimiter, `exactly 2 characters of "**" or "__"`, []string{"__", "**"}},
	}
	for _, rule := range rules {
		if !contains(rule.allowed, rule.value) {
			return &ValidateConfigError{Key: rule.key, Value: rule.value, patternDescription: rule.description}
		}
	}
''')]),
("n10-slices",None,[(V,'''	for _, val := range values {
		if val == searchVal {
			return true
		}
	}
	return false
''','''	return slices.Contains(values, searchVal)
'''),(V,'"fmt"','"fmt"\n\t"slices"')]),
("n10-joined",None,[(V,'''	if !contains([]string{"_", "*"}, cfg.EmDelimiter) {''','''	if cfg.EmDelimiter != "_" && cfg.EmDelimiter != "*" {''')]),
("n10-wrap",None,[(C,'''	if err := validateConfig(&cm.config); err != nil {
		return err
	}''','''	err := validateConfig(&cm.config)
	if err != nil {
		return err
	}''')]),
("n10-fill-helper",None,[(O,'''	if cfg.EmDelimiter == "" {
		// The new default is now "*" (instead of "_") as that works better inside words.
		cfg.EmDelimiter = "*"
	}
	if cfg.StrongDelimiter == "" {
		cfg.StrongDelimiter = "**"
	}''','''	cfg.EmDelimiter = orDefault(cfg.EmDelimiter, "*")
	cfg.StrongDelimiter = orDefault(cfg.StrongDelimiter, "**")'''),(O,'','''
func orDefault(value, fallback string) string {
	if value != "" {
		return value
	}
	return fallback
}
''')]),
("n10-fill-new",None,[(C,'''	cm := commonmark{
		config: fillInDefaultConfig(cfg),
	}

	return &cm''','''	cm := &commonmark{}
	cm.config = fillInDefaultConfig(cfg)
	return cm''')]),
("n10-table-if",None,[(T,'''		switch behavior {
		case "":
			// Allow empty string to default to Skip
			return nil

		case NewlineBehaviorSkip, NewlineBehaviorPreserve:
			p.newlineBehavior = behavior
			return nil

		default:
			return fmt.Errorf("unknown value %q for newline behavior", behavior)
		}''','''		if behavior == "" {
			return nil
		}
		if behavior != NewlineBehaviorSkip && behavior != NewlineBehaviorPreserve {
			return fmt.Errorf("unknown value %q for newline behavior", behavior)
		}
		p.newlineBehavior = behavior
		return nil''')]),
("n10-hr-loop",None,[(V,"""	chars := strings.NewReplacer(" ", "", "\\t", "").Replace(rule)

	for _, char := range []string{"*", "_", "-"} {
		if count := strings.Count(chars, char); count >= 3 && count == len(chars) {
			return true
		}
	}
	return false
""","""	count := 0
	var first rune
	for _, char := range rule {
		if char == ' ' || char == '\\t' {
			continue
		}
		if char != '*' && char != '_' && char != '-' {
			return false
		}
		if first == 0 {
			first = char
		}
		if char != first {
			return false
		}
		count++
	}
	return count >= 3
"""),(V,'	"strings"\n','')]),
("n10-hr-regexp",None,[(V,"""	chars := strings.NewReplacer(" ", "", "\\t", "").Replace(rule)

	for _, char := range []string{"*", "_", "-"} {
		if count := strings.Count(chars, char); count >= 3 && count == len(chars) {
			return true
		}
	}
	return false
""","""	return thematicBreak.MatchString(rule)
"""),(V,'	"strings"\n','	"regexp"\n'),(V,'',"""
var thematicBreak = regexp.MustCompile(`^[ \\t]*(?:(?:\\*[ \\t]*){3,}|(?:_[ \\t]*){3,}|(?:-[ \\t]*){3,})$`)
""")]),
("c10-hr-two",'C10',[(V,'count >= 3 && count','count >= 2 && count')]),
("c10-hr-hash",'C10',[(V,'[]string{"*", "_", "-"} {','[]string{"*", "_", "-", "#", "."} {')]),
("c10-hr-mixed",'C10',[(V,"""	chars := strings.NewReplacer(" ", "", "\\t", "").Replace(rule)
""","""	chars := strings.NewReplacer(" ", "", "\\t", "", "\\n", "").Replace(rule)
""")]),
]
