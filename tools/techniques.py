c('C17','abstract interpretation of each renderer (per element name) with a line-break automaton over every path of the SSA','Every successful exit of every built-in renderer, the fallback and the exported render functions.')
c('C27','abstract interpretation of each renderer with a write/decline typestate over every path of the SSA','Every declining exit of every built-in and exported renderer.')
c('C04','effect analysis over the call graph: nondeterminism sources (map order, time, random, environment, scheduling, addresses) and where their results flow','Every function reachable from a conversion.')
c('C05','effect analysis over the call graph: every external function reachable from a conversion is on the list of pure ones','Every call of an external function reachable from a conversion.')
c('C09','interprocedural error-flow analysis over the SSA, plus abstract interpretation of ConvertNode per failure scenario','Every call that can fail during set-up and parsing; every way out of ConvertNode under a stored error, no handlers, missing base plugin.')
c('C11','dataflow on the handler lists (copy, stable sort, full iteration, chaining) and phase typestate over the interprocedural control flow','Every call of a handler and every registration method.')
c('C24','typestate of the document links over every path of ConvertNode, including deferred calls','Every path from the entry of ConvertNode to every exit.')
c('C28','dataflow of input, options and result through every entry point','All six entry points.')
c('C32','abstract interpretation of the open flags per value of the overwrite setting, and an effect analysis of all file operations of the tool','Every file operation in the command line tool, with and without the overwrite flag.')
c('C33','interprocedural origin analysis of every path that is opened for writing or created','Every open, mkdir and other file operation of the command line tool, from main.')
c('C34','abstract interpretation of the tool per failing call with a typestate over its exits, and dataflow of everything written to the standard streams','Every exit of the tool, every write to a standard stream, the loop over the inputs.')
c('C35','interprocedural error-flow analysis over the SSA of the command line tool','Every call in the tool that returns an error, on every path.')
c('C36','dataflow from each flag to its setting and from each setting to its option, plus abstract interpretation per flag value','All 17 flags; every path from main to a conversion.')
c('C38','abstract interpretation with more than one input, plus a loop analysis of the record of used names','Every path on which a file name is chosen or a file is opened.')
c('C12','abstract interpretation of the removal step per element name and kind with a typestate over its paths, plus a loop analysis of the traversal and dataflow of the registrations','All ten kinds of removed elements, 19 kinds of other elements, every path of the removal step.')
c('C37','abstract interpretation of the selector steps per matching and other element, plus a loop analysis of both traversals and a typestate over every path to the conversion','Every path from parsing to the conversion with and without each kind of selector.')
c('C10','constant propagation of every relevant option value through the set-up code per option (abstract interpretation of the SSA), with dataflow from each option to its field','All text options of both plugins: every text constant of the package and variations of the documented values (any other text differs from all texts it is compared with).')
c('C29','abstract interpretation of every render handler per element name and option, whose written text is matched against the form of the construct on every path','All constructs of the three plugins for each documented option value, every path of the handlers; 37 other element names must be declined.')
c('C18','abstract interpretation of the written text per path against the form of the construct, plus evaluation of the fence length for every length of the longest run and an analysis of the run counter','Every path of the renderers of emphasis, strikethrough, code spans and code blocks, for all documented delimiters and fences.')
c('C19','character-set abstract interpretation of every text the URL resolution can return, plus matching of the written link against the form of its construct on every path','Every returned value of the resolution functions, every place of a link or image where a destination is written.')
c('C20','abstract interpretation of the written title per kind of quotes it contains (character sets with required escapes) on every path of the link and image renderers','Links and images by kind of quotes in the title, with and without a destination.')
c('C21','origin analysis of the written destination, of the arguments of the resolution and of the domain through the context, plus constant folding of the base URL','Every destination of a link or image, every call of the resolution, every store of the domain.')
c('C13','character-set abstract interpretation of every registered text transformer, post-render handler and renderer, plus a dominance and origin analysis of the writes for text nodes','Every returned text of every registered handler, every text that any renderer (or the converter) writes, for 70 element names.')
c('C14','character-set abstract interpretation of marking and unmarking, an inventory of the private characters every handler can add, and a must-pass dataflow analysis of the step that resolves each of them','Every private character that can be added while rendering; every path of the resolving handler; every later handler.')
c('C39','origin analysis and character-set abstract interpretation of the program with the setting fixed to disabled (and enabled), plus a must-write analysis of the loops over the characters','Marking, unmarking, all text transformers, post-render handlers and renderers for 70 element names; 256 byte values in the loops.')
c('C31','character-set abstract interpretation of the code renderers per special character, a backward dataflow analysis of everything done to the collected text, and a traversal analysis of the collector','All six code elements, each ASCII special character, every step between the text node and the output.')
c('C15','abstract interpretation of every escape rule per character, a symbolic range analysis of each answer (loop guards, base plus constant), and a must-write analysis of the marking loop','12 rules for each of 127 characters, every return; 20 special characters in the loop over the text.')
c('C16','index dataflow of every look at the text in the escape rules, and abstract interpretation of each search loop with the placeholder assumed at the position','12 rules with all helper functions, every load of a character, every search loop and whole-text comparison.')
c('C08','interprocedural taint analysis from numbers parsed out of the document to loop bounds, allocation sizes, repeat counts, format widths and recursion, with limit checks by dominance','Every number parsed from text, every loop, allocation, repetition, format and recursive call reachable from a conversion.')
c('C30','effect analysis of every step before rendering: places that change, add or remove text, each shown not to be reached for preformatted elements by abstract interpretation of the step (guard, recursive walk or loop walk)','Every registered step before rendering, every place that changes text, for pre and code.')
c('C22','typestate analysis of every path of every renderer (content written, found empty, or a loop over its parts that writes each part), plus a backward dataflow analysis of everything cut off the content','All elements with a renderer, the fallback, the text of nodes, every exit, every loop over parts and characters, every place that shortens or drops content.')
c('C25','typestate analysis, line by line, of everything the quote and list renderers write (start of a line, in a line, after a line break), for line breaks and for the placeholder of line breaks in code, with the form of the marker and of the indentation compared','Every path of the renderers of quotes and both kinds of lists, their helpers and loops; every text of the document that any renderer writes (70 element names) for carriage returns.')
c('C26','dataflow of the cells from where they are rendered to where they are written (additions, tests and replacements per configuration), with a counting typestate over the lines that are written and an affine argument that the rows are filled up','Every place that adds a cell to a row in the table plugin, for both line breaks (a line feed and the placeholder in code) and both ways to handle them: it has no line break, or a loop over all rows and all cells tests it afterwards and then replaces the text or gives up. Every "|" of rendered content is replaced by its escaped form on every path. Every line that is written has exactly one cell per round of a loop over the whole row (or all columns), with a "|" on both sides, and the rows are filled up, before they are written, to the number of columns counted over all cells of all rows. Which cells a span covers is not decided.')
c('C07','path-wise progress analysis of every loop (step of each header variable on each way round, read/write effects of what it calls), argument analysis of recursive calls and of the nodes that renderers render, and lower bounds of what the escape rules return','Every loop and recursive cycle of the library, every node rendered by a renderer, every skip count. Not decided: steps computed by third-party functions and rounds that rewrite the tree.')
