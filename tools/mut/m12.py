U='converter/url.go'
C='converter/ctx.go'
V='converter/convert.go'
A='plugin/commonmark/render_link.go'
I='plugin/commonmark/render_image.go'
Q='internal/textutils/quote.go'
M=[
# C19
("c19-no-paren",'C19',[(U,'''	"(", "%28",
''','')]),
("c19-data-raw",'C19',[(U,'''	if u.Scheme == "data" {
		// This is a data uri (for example an inline base64 image)
		return percentEncodingReplacer.Replace(rawURL)''','''	if u.Scheme == "data" {
		// This is a data uri (for example an inline base64 image)
		return rawURL''')]),
("c19-err-raw",'C19',[(U,'''	if err != nil {
		// We can't do anything with this url because it is invalid
		return percentEncodingReplacer.Replace(rawURL)''','''	if err != nil {
		// We can't do anything with this url because it is invalid
		return strings.ReplaceAll(rawURL, " ", "%20")''')]),
("c19-fragment",'C19',[(U,'''	if rawURL == "#" {''','''	if strings.HasPrefix(rawURL, "#") {''')]),
("c19-no-del",'C19',[(U,'''	"\\x7f", "%7F",
''','')]),
("c19-unescape",'C19',[(U,'''	return percentEncodingReplacer.Replace(u.String())
}''','''	res := percentEncodingReplacer.Replace(u.String())
	if u.Fragment != "" {
		res = strings.ReplaceAll(res, "%20", " ")
	}
	return res
}''')]),
("c19-empty-host",'C19',[(U,'''	return percentEncodingReplacer.Replace(u.String())
}''','''	if u.Opaque != "" {
		return u.String()
	}
	return percentEncodingReplacer.Replace(u.String())
}''')]),
("c19-ctx-skip",'C19',[(C,'''	return fn(tagName, rawURL, domain)''','''	if domain == "" && tagName == "img" {
		return rawURL
	}
	return fn(tagName, rawURL, domain)''')]),
("c19-img-data",'C19',[(I,'''	src = ctx.AssembleAbsoluteURL(ctx, "img", src)
''','''	if !strings.HasPrefix(src, "data:") {
		src = ctx.AssembleAbsoluteURL(ctx, "img", src)
	}
''')]),
("c19-link-mail",'C19',[(A,'''	href = ctx.AssembleAbsoluteURL(ctx, "a", href)
''','''	if !strings.HasPrefix(href, "mailto:") {
		href = ctx.AssembleAbsoluteURL(ctx, "a", href)
	}
''')]),
("c19-angle",'C19',[(U,'''	"<", "%3C",
	">", "%3E",
''','')]),
# C20
("c20-no-esc-backslash",'C20',[(Q,'''	content = bytes.ReplaceAll(content, []byte(`\\`), []byte(`\\\\`))
''','')]),
("c20-order",'C20',[(Q,'''	content = bytes.ReplaceAll(content, []byte(`\\`), []byte(`\\\\`))
''',''),(Q,'''		content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))
''','''		content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))
		content = bytes.ReplaceAll(content, []byte(`\\`), []byte(`\\\\`))
''')]),
("c20-single",'C20',[(Q,'''	if containsDoubleQuote && containsSingleQuote {''','''	if containsDoubleQuote && containsSingleQuote && len(content) > 2 {''')]),
("c20-swap",'C20',[(Q,'''		return SurroundBy(content, []byte(`'`))
	}''','''		return SurroundBy(content, []byte(`"`))
	}''')]),
("c20-esc-single",'C20',[(Q,'''		content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))
''','''		content = bytes.ReplaceAll(content, []byte(`'`), []byte(`\\'`))
''')]),
("c20-no-cr",'C20',[(A,'''	title = strings.ReplaceAll(title, "\\r", " ")
''','')]),
("c20-img-newline",'C20',[(I,'''	title = strings.ReplaceAll(title, "\\n", " ")
''','')]),
("c20-img-alone",'C20',[(I,'''	if title != "" && src != "" {''','''	if title != "" {''')]),
("c20-link-alone",'C20',[(A,'''	if l.href == "" {''','''	if l.href == "" && len(l.title) > 3 {''')]),
("c20-no-space",'C20',[(I,'''		// The destination and title must be seperated by a space
		w.WriteRune(' ')
''','')]),
("c20-raw-quotes",'C20',[(A,'''		w.Write(textutils.SurroundByQuotes([]byte(l.title)))''','''		w.WriteString("\\"" + l.title + "\\"")''')]),
("c20-quote-go",'C20',[(I,'''		w.Write(textutils.SurroundByQuotes([]byte(title)))''','''		w.WriteString("(" + title + ")" + string(textutils.SurroundByQuotes(nil)))''')]),
("c20-prefix-index",'C20',[(Q,'''	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
''','''	containsDoubleQuote := bytes.IndexByte(content, DOUBLE_QUOTE) > 0
''')]),
("c20-replace-once",'C20',[(Q,'''		content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))
''','''		content = bytes.Replace(content, []byte(`"`), []byte(`\\"`), 1)
''')]),
("c20-line-first",'C20',[(A,'''	title = strings.ReplaceAll(title, "\\n", " ")
''','''	title = strings.Replace(title, "\\n", " ", 1)
''')]),
# C21
("c21-img-a",'C21',[(I,'''ctx.AssembleAbsoluteURL(ctx, "img", src)''','''ctx.AssembleAbsoluteURL(ctx, "a", src)''')]),
("c21-img-skip",'C21',[(I,'''	src = ctx.AssembleAbsoluteURL(ctx, "img", src)
''','''	if !strings.HasPrefix(src, "data:") {
		src = ctx.AssembleAbsoluteURL(ctx, "img", src)
	}
''')]),
("c21-link-orig",'C21',[(A,'''	href = ctx.AssembleAbsoluteURL(ctx, "a", href)
''','''	if resolved := ctx.AssembleAbsoluteURL(ctx, "a", href); resolved != "" {
		href = resolved
	}
''')]),
("c21-domain-field",'C21',[(V,'''	ctx = provideDomain(ctx, option.domain)
''','''	if option.domain != "" {
		conv.lastDomain = option.domain
	}
	ctx = provideDomain(ctx, conv.lastDomain)
'''),('converter/converter.go','''type Converter struct {''','''type Converter struct {
	lastDomain string
''')]),
("c21-domain-global",'C21',[(C,'''	domain := GetDomain(ctx)
''','''	domain := GetDomain(ctx)
	if domain == "" {
		domain = fallbackDomain
	} else {
		fallbackDomain = domain
	}
'''),(C,'',''' 
var fallbackDomain string
''')]),
("c21-no-domain",'C21',[(V,'''	ctx = provideDomain(ctx, option.domain)
''','''	ctx = provideDomain(ctx, "")
''')]),
("c21-abs-path",'C21',[(U,'''	if base := parseBaseDomain(domain); base != nil {''','''	if base := parseBaseDomain(domain); base != nil && !strings.HasPrefix(rawURL, "//") {''')]),
("c21-img-noresolve",'C21',[(U,'''	if base := parseBaseDomain(domain); base != nil {''','''	if base := parseBaseDomain(domain); base != nil && (tagName != "img" || u.Path != "") {''')]),
("c21-hash",'C21',[(U,'''	if rawURL == "#" {''','''	if strings.HasPrefix(rawURL, "#") && !strings.ContainsAny(rawURL, " ()[]<>\\\\") {''')]),
("c21-no-scheme",'C21',[(U,'''	u2, err := url.Parse("http://" + rawDomain)
	if err == nil && u2.Host != "" {''','''	u2, err := url.Parse(rawDomain)
	if err == nil && u2.Host != "" {''')]),
("c21-args-swapped",'C21',[(C,'''	return fn(tagName, rawURL, domain)''','''	return fn(rawURL, tagName, domain)''')]),
("c21-lower",'C21',[(A,'''	href = ctx.AssembleAbsoluteURL(ctx, "a", href)
''','''	href = strings.ToLower(ctx.AssembleAbsoluteURL(ctx, "a", href))
''')]),
("c21-trim-slash",'C21',[(A,'''	href = ctx.AssembleAbsoluteURL(ctx, "a", href)
''','''	href = strings.TrimSuffix(ctx.AssembleAbsoluteURL(ctx, "a", href), "/")
''')]),
("c21-src-fallback",'C21',[(I,'''	src := dom.GetAttributeOr(n, "src", "")
''','''	src := dom.GetAttributeOr(n, "src", dom.GetAttributeOr(n, "data-src", ""))
''')]),
("c21-ctx-missing",'C21',[(V,'''	ctx = provideDomain(ctx, option.domain)
''','''	if option.domain != "" {
		ctx = provideDomain(ctx, option.domain)
	}
''')]),
# neutral
("n12-map",None,[(A,'''	title = strings.ReplaceAll(title, "\\n", " ")
	title = strings.ReplaceAll(title, "\\r", " ")
''','''	title = strings.Map(func(r rune) rune {
		if r == '\\n' || r == '\\r' {
			return ' '
		}
		return r
	}, title)
''')]),
("n12-replacer",None,[(A,'''	title = strings.ReplaceAll(title, "\\n", " ")
	title = strings.ReplaceAll(title, "\\r", " ")
''','''	title = strings.NewReplacer("\\n", " ", "\\r", " ").Replace(title)
''')]),
("n12-title-helper",None,[(A,'''	title := dom.GetAttributeOr(n, "title", "")
	title = strings.ReplaceAll(title, "\\n", " ")
	title = strings.ReplaceAll(title, "\\r", " ")
''','''	title := titleOf(n)
'''),(I,'''	title := dom.GetAttributeOr(n, "title", "")
	title = strings.ReplaceAll(title, "\\n", " ")
	title = strings.ReplaceAll(title, "\\r", " ")
''','''	title := titleOf(n)
'''),(A,'','''
func titleOf(n *html.Node) string {
	title, ok := dom.GetAttribute(n, "title")
	if !ok || title == "" {
		return ""
	}
	title = strings.ReplaceAll(title, "\\n", " ")
	title = strings.ReplaceAll(title, "\\r", " ")
	return title
}
''')]),
("n12-quote-var",None,[(Q,'''	if containsDoubleQuote && containsSingleQuote {
		// Escape all quotes
		content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))

		// Surround the content by double quotes
		return SurroundBy(content, []byte(`"`))
	}
	if containsDoubleQuote {
		// Since it contains double quotes (but no single quotes)
		// we can surround it by single quotes
		return SurroundBy(content, []byte(`'`))
	}

	// It may contain single quotes, but definitely no double quotes,
	// so we can safely surround it by double quotes.
	return SurroundBy(content, []byte(`"`))''','''	quote := byte(DOUBLE_QUOTE)
	switch {
	case containsDoubleQuote && containsSingleQuote:
		content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))
	case containsDoubleQuote:
		quote = SINGLE_QUOTE
	}
	return SurroundBy(content, []byte{quote})''')]),
("n12-index",None,[(Q,'''	containsDoubleQuote := bytes.ContainsRune(content, DOUBLE_QUOTE)
	containsSingleQuote := bytes.ContainsRune(content, SINGLE_QUOTE)
''','''	containsDoubleQuote := bytes.IndexByte(content, DOUBLE_QUOTE) >= 0
	containsSingleQuote := bytes.Contains(content, []byte("'"))
''')]),
("n12-quote-loop",None,[(Q,'''		content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))
''','''		var buf bytes.Buffer
		for _, b := range content {
			if b == DOUBLE_QUOTE {
				buf.WriteByte('\\\\')
			}
			buf.WriteByte(b)
		}
		content = buf.Bytes()
''')]),
("n12-quote-loop2",None,[(Q,'''		content = bytes.ReplaceAll(content, []byte(`"`), []byte(`\\"`))
''','''		escaped := make([]byte, 0, len(content)+2)
		for _, b := range content {
			switch b {
			case DOUBLE_QUOTE:
				escaped = append(escaped, '\\\\', b)
			default:
				escaped = append(escaped, b)
			}
		}
		content = escaped
''')]),
("n12-title-append",None,[(I,'''		w.WriteRune(' ')
		w.Write(textutils.SurroundByQuotes([]byte(title)))
''','''		w.WriteString(" " + string(textutils.SurroundByQuotes([]byte(title))))
''')]),
("n12-img-if",None,[(I,'''	if title != "" && src != "" {
		// The destination and title must be seperated by a space
		w.WriteRune(' ')
		w.Write(textutils.SurroundByQuotes([]byte(title)))
	}
''','''	if src == "" {
		title = ""
	}
	if quoted := textutils.SurroundByQuotes([]byte(title)); len(quoted) > 0 {
		w.WriteRune(' ')
		w.Write(quoted)
	}
''')]),
("n12-encode-loop",None,[(U,'''	return percentEncodingReplacer.Replace(u.String())
}''','''	return percentEncode(u.String())
}

func needsEncoding(c byte) bool {
	if c < 0x20 || c == 0x7f {
		return true
	}
	switch c {
	case ' ', '[', ']', '(', ')', '<', '>', '\\\\':
		return true
	}
	return false
}

func percentEncode(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; needsEncoding(c) {
			const hex = "0123456789ABCDEF"
			b.WriteByte('%')
			b.WriteByte(hex[c>>4])
			b.WriteByte(hex[c&15])
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}''')]),
("n12-encode-range",None,[(U,'''	return percentEncodingReplacer.Replace(u.String())
}''','''	var b strings.Builder
	for _, r := range u.String() {
		if r < 0x20 || r == 0x7f || strings.ContainsRune(" []()<>\\\\", r) {
			fmt.Fprintf(&b, "%%%02X", r)
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}'''),(U,'''import (
''','''import (
	"fmt"
''')]),
("n12-encode-helper",None,[(U,'''	return percentEncodingReplacer.Replace(u.String())
}''','''	return encodeDestination(u)
}

func encodeDestination(u *url.URL) string {
	s := u.String()
	return percentEncodingReplacer.Replace(s)
}''')]),
("n12-hash-helper",None,[(U,'''	if rawURL == "#" {
''','''	if isEmptyFragment(rawURL) {
'''),(U,'','''
func isEmptyFragment(s string) bool { return s == "#" }
''')]),
("n12-switch",None,[(U,'''	if rawURL == "#" {
''','''	switch rawURL {
	case "#", "#\x20":
		return "#"
	}
	if rawURL == "#" {
''')]),
("n12-switch2",None,[(U,'''	if rawURL == "#" {
''','''	switch rawURL {
	case "#", "##":
		if rawURL == "##" {
			break
		}
		return rawURL
	}
	if rawURL == "#" {
''')]),
("n12-base-first",None,[(U,'''	rawURL = strings.TrimSpace(rawURL)

''','''	rawURL = strings.TrimSpace(rawURL)
	base := parseBaseDomain(domain)

'''),(U,'''	if base := parseBaseDomain(domain); base != nil {''','''	if base != nil {''')]),
("n12-resolve-helper",None,[(U,'''	if base := parseBaseDomain(domain); base != nil {''','''	u = resolveAgainst(domain, u)
	if base := parseBaseDomain(""); base != nil {'''),(U,'','''
func resolveAgainst(domain string, u *url.URL) *url.URL {
	base := parseBaseDomain(domain)
	if base == nil {
		return u
	}
	return base.ResolveReference(u)
}
''')]),
("n12-base-loop",None,[(U,'''	// Yes, we got valid domain''','''	// Yes, we got  valid domain'''),(U,'''	if rawDomain == "" {
		return nil
	}
''','''	if rawDomain == "" {
		return nil
	}
	for _, candidate := range []string{rawDomain, "http://" + rawDomain} {
		u, err := url.Parse(candidate)
		if err == nil && u.Host != "" {
			return u
		}
	}
''')]),
("n12-link-struct",None,[(A,'''	title := dom.GetAttributeOr(n, "title", "")
	title = strings.ReplaceAll(title, "\\n", " ")
	title = strings.ReplaceAll(title, "\\r", " ")

	l := &link{
		Node:  n,
		href:  href,
		title: title,
	}
''','''	l := &link{
		Node: n,
		href: href,
	}
	if href != "" {
		title := dom.GetAttributeOr(n, "title", "")
		title = strings.ReplaceAll(title, "\\n", " ")
		l.title = strings.ReplaceAll(title, "\\r", " ")
	}
'''),(A,'''	if l.href == "" {
		// A link without href is valid, like e.g. [text]()
		// But a title would make it invalid.
		l.title = ""
	}
''','')]),
("n12-href-helper",None,[(A,'''	href := dom.GetAttributeOr(n, "href", "")

	href = strings.TrimSpace(href)
	href = ctx.AssembleAbsoluteURL(ctx, "a", href)
''','''	href := destination(ctx, n, "href")
'''),(I,'''	src := dom.GetAttributeOr(n, "src", "")
	src = strings.TrimSpace(src)
	if src == "" {
		return converter.RenderTryNext
	}

	src = ctx.AssembleAbsoluteURL(ctx, "img", src)
''','''	if strings.TrimSpace(dom.GetAttributeOr(n, "src", "")) == "" {
		return converter.RenderTryNext
	}
	src := destination(ctx, n, "src")
'''),(A,'','''
func destination(ctx converter.Context, n *html.Node, attr string) string {
	raw := strings.TrimSpace(dom.GetAttributeOr(n, attr, ""))
	return ctx.AssembleAbsoluteURL(ctx, dom.NodeName(n), raw)
}
''')]),
("n12-ctx-inline",None,[(C,'''	return assembleAbsoluteURL(ctx, tagName, rawURL)
}''','''	fn, ok := ctx.Value(ctxKeyAssembleAbsoluteURL).(AssembleAbsoluteURLFunc)
	if !ok {
		return ""
	}
	return fn(tagName, rawURL, GetDomain(ctx))
}''')]),
("n12-provide-inline",None,[(V,'''	ctx = provideDomain(ctx, option.domain)
''','''	ctx = context.WithValue(ctx, ctxKeyDomain, option.domain)
''')]),
("n12-domain-var",None,[(V,'''	ctx = provideDomain(ctx, option.domain)
''','''	baseDomain := option.domain
	ctx = provideDomain(ctx, baseDomain)
''')]),
]
