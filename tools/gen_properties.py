#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as code so that titles, statements and anchors are edited in one place).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        observe_at=observe or [],hook_needed=None)))

CONV="converter/convert.go"; REG="converter/register.go"; CTX="converter/ctx.go"; ESC="converter/escape.go"
CM="plugin/commonmark/"
p("C01","Sharing one converter between goroutines is free of data races",
  "One converter, with any built-in plugins, can be used by any number of goroutines at once, converting and registering handlers at the same time. Every piece of memory that two such calls can both reach is either never written after construction or is accessed only with one common lock held, in exclusive mode when it is written (in-place sorting or editing of a shared list counts as a write).",
  ["schedules"],"all interleavings of conversions and registrations on a shared converter",
  "Tests run conversions one at a time (one t.Parallel test at most); a race needs two particular accesses to overlap.",
  ["converter/converter.go",REG,CONV,ESC,"plugin/table/table.go","plugin/commonmark/commonmark.go"],
  [("RWMutex in the converter","converter/converter.go: Converter.m"),("snapshot copies of handler lists",REG+": get*Handlers")],
  [("registered handlers, tag types, escaped characters, plugin names","configuration shared by all conversions","converter/converter.go: Converter")])
p("C02","Locks are always released and never held across foreign code",
  "Every lock the library takes is released on every way out of the function that took it. No lock is held while code that the library does not control runs (conversion options, handlers, plugin initialisation, transformation callbacks), and no lock is acquired while it is already held, so that no caller can deadlock or block other conversions.",
  ["schedules","inputs"],"all paths through all functions that lock, for all callbacks a caller can supply",
  "Tests never pass an option, handler or plugin that re-enters the converter while another call is in flight.",
  ["converter/converter.go",REG,CONV,"plugin/table/table.go"],
  [("lock/defer unlock pairs",REG),("option evaluation",CONV+": ConvertNode")])
p("C03","A conversion leaves nothing behind for the next one",
  "A conversion does not change the converter, its plugins, their configuration or any package-level data: all state that a conversion writes (apart from the document it was handed) is created for that conversion. Hence the result of a conversion does not depend on which conversions ran before it.",
  ["histories"],"all sequences of conversions on one converter",
  "Tests use a fresh converter for nearly every conversion, so state that leaks from one conversion to the next is not observed.",
  [CONV,CTX,ESC,"plugin/base/base.go",CM+"commonmark.go","plugin/table/table.go","plugin/strikethrough/strikethrough.go","internal/textutils","internal/domutils"],
  [("state created per conversion",CTX+": newGlobalState"),("snapshots of handler lists",REG)])
p("C04","Conversion is deterministic",
  "The markdown is a function of the document, the options and the registered plugins only. Nothing that decides the output depends on map iteration order, time, random numbers, the environment, goroutine scheduling, or addresses.",
  ["inputs","schedules"],"all inputs, all runs",
  "A test that runs once and compares cannot tell a fixed result from a lucky iteration order.",
  ["converter/","plugin/","internal/","collapse/"],[("ordered slices everywhere output is produced",REG)])
p("C05","The library converts without touching the outside world",
  "Converting reads nothing but its arguments and writes nothing but its result: no files, network, processes, environment, standard streams or logs, and it never ends the process. The one exception are the '[warning]' lines that are printed when a caller misuses the typed state or context values.",
  ["inputs"],"all inputs and all plugin combinations",
  "Tests look at the returned markdown only; they do not notice a read of a file, a lookup or a stray print.",
  ["converter/","plugin/","internal/","collapse/","marker/","convert.go"],[("no imports of os/net in library packages","converter/, plugin/, internal/")])
p("C06","Converting never panics",
  "For every document, with every combination of the built-in plugins and their accepted options (including disabled escaping), conversion returns instead of panicking: every index and slice expression is in bounds, every type assertion that can fail is checked, no nil node or function is dereferenced, and no node is attached while it still has a parent or removed from a parent it does not have.",
  ["inputs","configurations"],"all documents, all accepted configurations",
  "Golden files cover a few hundred documents; out-of-range indexes need unusual shapes such as empty content or a special last character.",
  ["converter/","plugin/","internal/","collapse/"],[("guards in front of index expressions","internal/escape, internal/textutils, plugin/*")])
p("C07","Converting always terminates",
  "Every loop of the conversion makes progress towards a bound that does not recede, and every recursion descends the document tree, so each conversion ends for every document.",
  ["inputs"],"all documents, all configurations",
  "A non-terminating input simply is not among the samples.",
  ["converter/escape.go","collapse/collapse.go","internal/domutils","internal/textutils","internal/escape","plugin/table"],
  [("loop counters and tree walks","see files")])
p("C08","Attribute numbers cannot inflate the work or the output",
  "Numbers written in the document (such as colspan, rowspan or start) never decide, without a fixed upper limit, how often a loop runs, how much memory is allocated or how often a text is repeated. A small document can therefore not cause unbounded work or output.",
  ["inputs"],"all documents",
  "No test uses a huge number, since it would exhaust the machine.",
  ["plugin/table/utils.go","plugin/table/2_collect.go",CM+"render_list.go"],[("span expansion","plugin/table/utils.go: calculateModifications, growSlice"),("list numbering",CM+"render_list.go")])
p("C09","Setup and parse failures are returned, never swallowed",
  "When an option of the converter, the initialisation or configuration of a plugin, or reading and parsing of the HTML fails, the conversion functions return that error (wrapped or as is) together with no output. Converting without the needed plugins is also an error.",
  ["fault_sequences","configurations"],"all failing options, plugins and readers, at every entry point",
  "Only a few failing configurations are sampled; a failing reader and a plugin registered later are not.",
  [CONV,"converter/converter.go",REG,"converter/plugin.go","convert.go","plugin/table/table.go",CM+"validation.go"],
  [("deferred error","converter/converter.go: Converter.err, setError/getError")])
p("C10","Only documented option values are accepted",
  "Every text-valued option of the commonmark and table plugins is checked against its documented set of values before anything is converted, and a value outside of that set makes every conversion fail with an error. No option can therefore inject arbitrary text into the output.",
  ["configurations"],"all option values",
  "The validation tests try two wrong values; all other strings are untested.",
  [CM+"validation.go",CM+"options.go",CM+"commonmark.go","plugin/table/table.go"],[("validateConfig",CM+"validation.go"),("option functions","plugin/table/table.go")])
p("C11","Handlers run in priority order, ties in registration order",
  "Within each phase all registered handlers take part in ascending order of their priority and, for equal priority, in the order of registration. All pre-render handlers run on the whole document before anything is rendered, all post-render handlers run after rendering on the output of the previous one, text transformers are chained likewise, and for each node the first render handler (or for each tag the first tag type, for each character the first unescaper) that succeeds decides.",
  ["configurations","histories"],"all numbers and orders of registrations",
  "Tests register a handful of handlers; the order among many handlers with equal priority is only visible with more of them.",
  [REG,"converter/prioritized.go",CONV,"converter/render.go",ESC],[("sorted snapshots","converter/prioritized.go: Sort; "+REG+": get*Handlers")])
p("C12","Non-content elements are removed wherever they occur",
  "With the base plugin, comments and the elements head, script, style, link, meta, iframe, noscript, input and textarea are removed with their whole content, wherever and however often they occur in the document, before any other step looks at it. The traversal reaches every other node, also directly after a removed one.",
  ["inputs"],"all documents",
  "Samples contain some of these elements in some positions, not neighbouring ones in all parents.",
  ["plugin/base/base.go","converter/register.go"],[("tag type 'remove' and preRenderRemove","plugin/base/base.go")])
p("C13","Text never produces raw angle brackets",
  "A '<' or '>' that occurs in the text of the document (outside of code) always appears as an entity in the markdown, so that text which was escaped in the HTML can never turn into live HTML. This holds with escaping enabled and disabled.",
  ["inputs","configurations"],"all text content",
  "Tests try some texts; a path that skips the replacement is only visible for particular texts or contexts.",
  ["plugin/base/base.go","converter/render.go"],[("characterEntityReplacer","plugin/base/base.go: handleTextTransform")])
p("C14","Internal placeholder characters never reach the output",
  "The private characters that are used between the phases (to mark possible escapes, and newlines of code blocks) are all resolved before a conversion returns, with escaping enabled and disabled. They are resolved by steps that run after every step that can create them, and for the whole output.",
  ["inputs","configurations"],"all documents and configurations",
  "Golden files would show a leak only on the sampled documents and in the default configuration.",
  [ESC,"marker/marker.go","plugin/base/base.go",CM+"commonmark.go"],[("unEscapeContent",ESC),("handlePostRenderCodeBlockNewline",CM+"commonmark.go")])
p("C15","Escape rules only act on characters that are marked for escaping",
  "Every character on which an escaping rule of a built-in plugin can act is registered by that plugin as a special character, so that no rule is silently dead and each syntax character is considered for escaping. Each rule answers either 'no' or a number of at least one that never exceeds what is left of the text.",
  ["inputs","configurations"],"all texts, all plugin combinations",
  "A rule whose trigger is not registered simply never fires; the tests call the rules directly.",
  [CM+"commonmark.go","plugin/strikethrough/strikethrough.go","plugin/table/table.go","internal/escape",ESC],[("EscapedChar and UnEscaper registrations",CM+"commonmark.go: Init")])
p("C16","Escape decisions look through the internal placeholders",
  "When an escaping rule looks left or right in the text, the internal placeholder characters between the real characters are skipped, so that the decision depends on the real text only and not on which neighbours happen to be marked.",
  ["inputs"],"all texts",
  "Only the combinations in the table tests are tried.",
  ["internal/escape"],[("placeholder skipping in scan loops","internal/escape/*.go")])
p("C17","Block constructs are always separated by blank lines",
  "Everything that is rendered for a block construct (heading, block quote, list, code block, divider, table, table row, list separator, and any other block element) starts with a blank-line separator and ends with one, on every way through its renderer that produces output. Neighbouring blocks can therefore never merge.",
  ["inputs","configurations"],"all documents, all styles",
  "Each sample shows one neighbourhood; styles and early returns multiply them.",
  [CM+"render_heading.go",CM+"render_blockquote.go",CM+"render_list.go",CM+"render_code.go",CM+"render_divider.go",CM+"render_comment.go","plugin/table/3_render.go","plugin/table/table.go","plugin/base/renderers.go","converter/render.go"],
  [("two newlines written before and after","the renderers")])
p("C18","Opening and closing delimiters always match",
  "Whatever opens emphasis, strong, strikethrough, a code span or a code block is closed by exactly the same delimiter, on every path. The fence of a code span or block is longer than every run of the fence character in its content, and a fenced block is fenced with at least three characters on lines of their own.",
  ["inputs","configurations"],"all contents, all delimiters",
  "Samples contain few fence runs and few delimiters.",
  [CM+"render_bold_italic.go",CM+"render_code.go","internal/textutils/delimiter.go","internal/textutils/codefence.go","plugin/strikethrough/strikethrough.go"],
  [("DelimiterForEveryLine","internal/textutils/delimiter.go"),("CalculateCodeFence","internal/textutils/codefence.go")])
p("C19","Link and image destinations cannot break out of their parentheses",
  "The destination written for a link or an image contains no space, control character, parenthesis, square bracket or angle bracket, whatever the attribute contains and on every path of the URL handling.",
  ["inputs"],"all href and src values, all domains",
  "The URL tests list some dozens of URLs; the error and data-URL paths have a few.",
  ["converter/url.go",CM+"render_link.go",CM+"render_image.go"],[("percentEncodingReplacer","converter/url.go: defaultAssembleAbsoluteURL")])
p("C20","Link and image titles stay quoted and on one line",
  "A title is written between quotes of one kind that do not occur unescaped inside of it, contains no line break, and is separated from the destination by a space. A title is never written without a destination.",
  ["inputs"],"all titles",
  "A few titles are sampled.",
  ["internal/textutils/quote.go",CM+"render_link.go",CM+"render_image.go"],[("SurroundByQuotes","internal/textutils/quote.go")])
p("C21","Every link and image URL goes through the URL resolution",
  "The destination of every link and every image is the result of the resolution step for the right kind of element, and is resolved against the domain given to this very conversion. No other text is ever written as a destination.",
  ["inputs","configurations"],"all links and images, all domains",
  "Some samples set a domain; a path that writes the raw attribute is only visible with relative URLs there.",
  [CM+"render_link.go",CM+"render_image.go",CTX,"converter/url.go",CONV],[("AssembleAbsoluteURL",CTX)])
p("C22","Renderers do not lose the content of an element",
  "Each built-in renderer either declines an element, or renders the content below it (children rendered, or their text collected) and writes that content out. Content is left out only if it was found to be empty, or for the elements that have none (divider, break, image).",
  ["inputs","configurations"],"all documents, all options",
  "An early return in one branch of a renderer loses content only for particular inputs.",
  ["plugin/","converter/render.go"],[("renderers","plugin/*/render*.go, converter/render.go")])
p("C23","Rewriting the document never loses or duplicates content",
  "The steps that restructure the document before rendering (merging, unwrapping, swapping, moving and renaming elements) keep every piece of text and every image exactly once: a node that is detached is attached again, or its children were moved out first, or it was found to hold no text. Nodes are deleted for good only for the documented reasons.",
  ["inputs"],"all document shapes",
  "The DOM tests use small trees; losses need nested or neighbouring shapes.",
  ["internal/domutils","collapse/collapse.go","plugin/base/base.go"],[("detach then attach","internal/domutils/adjacent.go, list_items.go, redundant.go")])
p("C24","Converting a part of a document stays inside that part",
  "When a node that is part of a bigger document is converted, the result depends on that node and its descendants only, and nothing outside of it is changed.",
  ["inputs"],"all nodes of all documents",
  "The tests convert whole documents only.",
  [CONV,"internal/domutils"],[("tree walks started at the given node","internal/domutils/*.go")])
p("C25","Nested lines always carry the prefix of their container",
  "Every line of the content of a block quote carries the quote prefix and every further line of a list item is indented, including the lines of a code block inside and for any nesting. No content of a container can escape to the level outside.",
  ["inputs"],"all nestings of lists, quotes and code",
  "The samples nest a few levels and have a single-line code block in a quote.",
  [CM+"render_blockquote.go",CM+"render_list.go","internal/textutils/prefix_lines.go",CM+"render_code.go"],
  [("PrefixLines and renderMultiLineListItem","see files"),("code block newline marker","marker/marker.go")])
p("C26","Tables are rectangular and every row is one line",
  "In a rendered table the header, the delimiter row and all body rows have the same number of cells, and no cell contains a line break when it is written. With escaping enabled, a pipe character of the content (also one inside of a code span or a title) is escaped and never splits a cell. A table that cannot be written this way is not rendered as a table.",
  ["inputs","configurations"],"all tables, all table options",
  "Spans, missing cells and multi-line cells combine in more ways than sampled.",
  ["plugin/table/2_collect.go","plugin/table/3_render.go","plugin/table/utils.go"],[("fillUpRows, calculateMaxCounts","plugin/table/utils.go"),("containsNewline","plugin/table/2_collect.go")])
p("C27","A renderer that declines has written nothing",
  "A render handler that passes an element on to the next handler has not written anything to the output before, so that no content or syntax is duplicated.",
  ["inputs","configurations"],"all elements, all options",
  "Declining happens in rare branches.",
  ["plugin/","converter/render.go"],[("return RenderTryNext","renderers")])
p("C28","All entry points perform the same conversion",
  "Converting a string, a reader or a parsed node, through the package-level functions or a converter, performs the same conversion: the same plugins are active for the package-level functions, all options are passed on, and the result and the error are returned unchanged.",
  ["inputs","configurations"],"all inputs at all entry points",
  "The tests compare the entry points for one or two inputs.",
  ["convert.go",CONV],[("delegation chain","convert.go, "+CONV)])
p("C29","Each HTML element is rendered as its documented construct",
  "Headings of level n are rendered with n number signs (or the underline of their level), and strong/b, em/i, del/s/strike, a, img, ul/ol, pre, code and its synonyms, blockquote, hr, br and table are each handled by the renderer of their construct and of no other. Elements that a plugin does not know are passed on.",
  ["inputs","configurations"],"all element names",
  "Not each synonym appears in the samples.",
  [CM+"handle_render.go",CM+"render_heading.go",CM+"render_bold_italic.go","plugin/strikethrough/strikethrough.go","plugin/table/table.go"],[("dispatch by node name",CM+"handle_render.go")])
p("C30","Whitespace inside preformatted content is never touched",
  "Whitespace is collapsed only in text outside of preformatted elements: no step before rendering changes the text inside of pre and code elements, and the lines of a code block come out as they are in the document.",
  ["inputs"],"all documents",
  "A few samples contain pre elements.",
  ["collapse/collapse.go",CM+"render_code.go"],[("IsPreformattedNode","collapse/collapse.go: nextNode")])
p("C31","Code is emitted verbatim",
  "The text inside of code spans and code blocks is neither escaped nor entity-encoded nor rendered as markdown: it is collected directly from the text nodes, and the only changes are the collapsing of whitespace in code spans and the removal of one final line break in code blocks.",
  ["inputs"],"all code contents",
  "Samples contain few special characters in code.",
  [CM+"render_code.go","internal/textutils/collapse_code.go"],[("getCodeWithoutTags",CM+"render_code.go")])
p("C32","The CLI never overwrites a file unless asked to",
  "The command line tool creates output files in exclusive mode, so an existing file is never changed or truncated, unless the overwrite flag was given; with the flag the old content is replaced completely. There is no other way to write a file.",
  ["inputs","configurations","histories"],"all flags, all states of the file system",
  "Tests check one existing file; races between check and write cannot be tested.",
  ["cli/html2markdown/cmd/io_output.go"],[("WriteFile","cli/html2markdown/cmd/io_output.go")])
p("C33","The CLI writes only below the given output location",
  "The only file system locations that the tool creates or writes are the output file, or files directly inside the output directory, named after the base name of the input; an input path can not direct a write anywhere else. Inputs are only read.",
  ["inputs"],"all input paths and globs",
  "Only a few layouts are tested.",
  ["cli/html2markdown/cmd/io_output.go","cli/html2markdown/cmd/io_input.go"],[("filepath.Base / filepath.Join","cli/html2markdown/cmd/io_output.go")])
p("C34","The CLI's exit status and streams tell success from failure",
  "The tool exits with status 0 exactly if everything that was asked for was done and with a non-zero status after any error; errors and warnings go to standard error, and standard output carries only the markdown, the version or the help text.",
  ["inputs","fault_sequences"],"all runs",
  "Tests cover a few error kinds.",
  ["cli/html2markdown/cmd/exec.go","cli/html2markdown/cmd/errors.go","cli/html2markdown/cmd/io_output.go"],[("Execute","cli/html2markdown/cmd/exec.go")])
p("C35","No error is dropped in the CLI",
  "Every error that can occur while reading inputs, parsing flags and selectors, converting, creating directories and writing or closing outputs (including standard output) makes the run fail; no such error is ignored or overwritten.",
  ["fault_sequences"],"failures of every operation",
  "Most failures (full disk, closed pipe) cannot be provoked in the test set-up.",
  ["cli/html2markdown/cmd/"],[("error returns","cli/html2markdown/cmd/*.go")])
p("C36","Every CLI flag has its documented effect",
  "Each flag sets its own setting, and each setting reaches the conversion option or the behaviour that it is documented for: domain, selectors, strong delimiter, plugins, table options, input, output and overwrite. A table option without the table plugin is an error.",
  ["configurations"],"all combinations of flags",
  "Tests set few flags and few combinations.",
  ["cli/html2markdown/cmd/flags.go","cli/html2markdown/cmd/cmd_convert.go","cli/html2markdown/cmd/exec.go"],[("initFlags, parseFlags, convert","cli/html2markdown/cmd/")])
p("C37","Include and exclude selectors keep and drop exactly the matches",
  "With include selectors exactly the matching parts of the document are converted, in document order; with exclude selectors every matching element is dropped with its content, wherever it is, and nothing else. Excluding applies to the included parts too.",
  ["inputs"],"all documents and selectors",
  "A few selectors are tested on small documents.",
  ["cli/html2markdown/cmd/cmd_convert.go"],[("includeNodesFromDoc, excludeNodesFromDoc","cli/html2markdown/cmd/cmd_convert.go")])
p("C38","Several inputs never share one output file",
  "Within one run, two different inputs are never written to the same output file.",
  ["inputs"],"all sets of inputs",
  "Only two equal base names are tested.",
  ["cli/html2markdown/cmd/io_output.go"],[("calculateOutputPaths","cli/html2markdown/cmd/io_output.go")])
p("C39","With escaping disabled no backslash is added to the text",
  "With escaping disabled the text of the document appears without any added escape characters, and with escaping enabled the only characters added to the text are backslashes in front of special characters.",
  ["inputs","configurations"],"all texts, both modes",
  "Hardly any test disables escaping.",
  [ESC,CM+"commonmark.go",CM+"render_heading.go","plugin/table/2_collect.go"],[("EscapeModeDisabled",ESC)])
p("C40","Escaped output reads back as the same text",
  "Parsing the markdown that was produced with escaping enabled yields the same visible text and structure as the HTML input.",
  ["inputs"],"all documents",
  "The round-trip tests cover the golden files only.",
  ["internal/escape","converter/escape.go",CM],[("escape and unescape handlers","internal/escape")])
p("C41","Whitespace collapses like in a browser",
  "Outside of preformatted content, the visible spacing of the text is the one a browser would show: no words are joined and no spaces are added.",
  ["inputs"],"all documents",
  "Samples only.",
  ["collapse/collapse.go","collapse/whitespace.go"],[("Collapse","collapse/collapse.go")])
p("C42","List numbering and table alignment have the right values",
  "The numbers of an ordered list count up from its start, all padded to one width, and the alignment and width of each table column are those of its cells.",
  ["inputs"],"all lists and tables",
  "Samples only.",
  [CM+"render_list.go","plugin/table/3_render.go"],[("getPrefixFunc",CM+"render_list.go"),("writeHeaderUnderline","plugin/table/3_render.go")])
p("C43","Conversion time grows moderately with the input",
  "The time of a conversion is at most quadratic in the size of the document.",
  ["inputs"],"all documents",
  "No performance test.",
  ["converter/","internal/"],[("single passes over the tree","see files")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P: assert len(x["title"])<=80,x["title"]
