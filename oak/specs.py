"""Which functions each written specification covers, and the property it decides.

S: (id, packages, crates, patterns, title, statement, quantifier, why tests cannot, files, observe)
Patterns are regular expressions over function keys; `-pattern` excludes."""

C = "^<?oak_core::"
CORE = (["oak-core"], ["oak_core"])
S = []


def s(id, where, pats, title, statement, over, text, why, files, observe):
    S.append(dict(id=id, packages=where[0], crates=where[1], pats=pats, title=title, statement=statement, over=over, text=text, why=why, files=files, observe=observe))


OC = "projects/oak-core/src/"

# ---------------------------------------------------------------- source text
s("S01", CORE, [C + r"source::text::", C + r"source::(Source|TextChunk)::", r"^<(str|&S) as oak_core::source::Source>::", "-apply_edits", "-expected|error|unexpected|trailing"],
  "Reading a range of source text returns exactly the bytes in that range",
  "For every text and every byte range, reading the range, a single position, or everything from a position on returns exactly that part of the text; a range that is reversed, ends past the text or cuts a character reads as empty. Searching for a character or string from a position reports the first occurrence at or after it, in absolute offsets, or nothing.",
  ["inputs"], "every text, every range and position, including empty, reversed, out-of-bounds and mid-character ones",
  "The tests read a few ranges of short ASCII strings; clamping, empty ranges and ranges that split a character are not among them.",
  [OC + "source/text.rs", OC + "source/mod.rs"], ["Source::get_text_in", "Source::chunk_at", "Source::length", "Source::get_char_at", "Source::find_str_from"])
s("S02", CORE, [C + r"source::(rope|streaming)::", "-apply_edits|replace_range", "-fmt"],
  "Chunked and rope buffers read the same as the contiguous text they hold",
  "A text stored in pieces has the length of the concatenation of its pieces, and reading a range of whole characters returns what the same read of the concatenated text returns; a range that reaches past the end is cut off there. Splitting a text into pieces keeps every byte, in order, and never cuts a character.",
  ["inputs"], "every text, chunk size and range, including ranges across several pieces",
  "Differences show only for ranges that start or end on, or run across, a piece boundary at particular sizes.",
  [OC + "source/rope.rs", OC + "source/streaming.rs"], ["Source::get_text_in and chunk_at of RopeBuffer, RopeSource, ChunkedBuffer, ChunkedSource"])
s("S03", CORE, [C + r"source::cursor::"],
  "The source cursor reads and moves exactly over the characters it reports",
  "At every character boundary, the byte, character and lookahead the cursor reports are those of the text at that position, and moving over a byte, character, run or literal advances by exactly the length of what was consumed and by nothing when it did not match. Run-skipping operations stop at the first byte or character outside the requested set and return the range skipped.",
  ["inputs"], "every text, contiguous or in pieces, and every position",
  "Each operation has separate paths for characters that cross a piece boundary and for the end of text, which short single-piece test strings never take.",
  [OC + "source/cursor.rs"], ["SourceCursor peek/advance/skip/take/consume operations", "SourceCursor::position"])
s("S04", CORE, [C + r"source::text::SourceText::apply_edits", C + r"source::rope::RopeBuffer::(apply_edits|replace_range|split_at|boundary_index|chunk_index)", C + r"source::rope::rebuild_starts", C + r"source::buffer::", r"as core::convert::From<oak_core::source::buffer"],
  "Applying text edits yields the edited text and the range that changed",
  "Applying a list of edits replaces exactly the given ranges with the given replacements and keeps all other text, whatever the order in which non-overlapping edits are listed. The position reported as changed is the smallest start of any edit, and text joined from fragments gets a separating space exactly where two words would otherwise run together.",
  ["inputs", "histories"], "every text and every list of edits",
  "The tests apply one or two edits to a short string; order dependence and offsets after several edits need particular combinations.",
  [OC + "source/text.rs", OC + "source/rope.rs", OC + "source/buffer.rs"], ["SourceText::apply_edits", "RopeBuffer::apply_edits", "SourceBuffer::push"])
s("S05", CORE, [C + r"source::simd::"],
  "Vectorised byte scans agree with a byte-by-byte scan",
  "For every byte slice, each scan reports the first position that matches (or the length of the matching prefix), as a scan of one byte after another would, independent of the slice's length and alignment.",
  ["inputs"], "every byte slice of every length",
  "Block and tail handling differ by length modulo the block width; tests use a handful of lengths.",
  [OC + "source/simd.rs"], ["SimdScanner functions"])
# ---------------------------------------------------------------- lexer
s("X01", CORE, [C + r"lexer::(LexerState|Token)::", "-new_with_cache|finish_with_cache|fully_reused", "-scan_"],
  "The lexing state keeps position, tokens and errors in step with what is read",
  "Every read leaves the position unchanged, every advance moves it over exactly the text consumed, and adding a token records exactly the given kind and range after those before it. Finishing returns all recorded tokens in order, or the failure it was given, and in both cases all recorded errors.",
  ["inputs", "histories"], "every sequence of reads, advances and token emissions on every text",
  "Tests see the combination through whole lexers on samples; an off-by-one in an operation shows only where its unusual path is taken.",
  [OC + "lexer/mod.rs"], ["LexerState operations", "LexOutput"])
s("X02", CORE, [C + r"lexer::scan_", C + r"lexer::LexerState::scan_"],
  "The shared scanners consume exactly the comment, string or name they match",
  "Given their configuration, the shared scanners recognise whitespace, comments (line and block, nested where asked for), string and character literals with escapes, number prefixes and identifiers, consume exactly that text, emit one token of the configured kind for it, and leave the state untouched when there is none.",
  ["inputs"], "every text and every scanner configuration",
  "Unterminated literals, escapes at the end of the text and nesting are reachable only with specific inputs.",
  [OC + "lexer/scan_comment.rs", OC + "lexer/scan_string.rs", OC + "lexer/scan_white_space.rs", OC + "lexer/scan_identifier.rs", OC + "lexer/scan_number.rs", OC + "lexer/mod.rs"], ["CommentConfig::scan", "StringConfig::scan", "WhitespaceConfig::scan", "LexerState::scan_*"])
s("X03", CORE, [C + r"lexer::(LexerState::(new_with_cache|finish_with_cache|fully_reused)|LexerCache::)", r"^<&mut C as oak_core::lexer::LexerCache", C + r"lexer::arc_slice", C + r"language::TokenType::", r"^<oak_core::parser::session::ParseSession as oak_core::lexer::"],
  "Incremental lexing reuses only tokens that end before the edit",
  "When a previous token list is available, lexing resumes right after the reused tokens: all of them when nothing changed, and otherwise those that end at or before the changed position, less the last one as a margin for lookahead. The result is stored back in the cache together with its errors.",
  ["inputs", "histories"], "every cached token list and every edit position",
  "Whether a reused token is one too many depends on where the edit falls relative to it; the tests try a few positions.",
  [OC + "lexer/mod.rs", OC + "parser/session.rs"], ["LexerState::new_with_cache", "LexerState::finish_with_cache"])
# ---------------------------------------------------------------- tree
s("T01", CORE, [C + r"tree::green_tree::", C + r"tree::metadata"],
  "A tree node's length is the sum of its children's lengths",
  "A syntax node built from children reports the sum of their text lengths as its own, keeps them in order, and gives back each by index. Two nodes compare equal exactly when kind, length and children do, and equal ones hash equally.",
  ["inputs"], "every list of children", "Tests build two or three small nodes.",
  [OC + "tree/green_tree.rs"], ["GreenNode", "GreenLeaf", "GreenTree"])
s("T02", CORE, [C + r"tree::red_tree::", C + r"tree::green_tree::Green(Tree::len|Node::text_len|Node::new|Leaf::length)$"],
  "Absolute offsets in a positioned tree follow from the lengths before them",
  "The span of every element of a positioned tree starts at its parent's start plus the lengths of the siblings before it and is as long as the element. Looking up the child or leaf at an offset finds the one whose span contains it, or nothing outside the tree, and iterating over children yields each once, in order, with its span.",
  ["inputs"], "every tree and every offset", "Boundary offsets between children and zero-length children occur only in particular trees.",
  [OC + "tree/red_tree.rs"], ["RedNode::child_at", "RedNode::child_index_at_offset", "RedNode::leaf_at_offset", "RedChildren"])
s("T03", CORE, [C + r"tree::cursor::", C + r"tree::green_tree::Green(Tree::len|Node::text_len|Node::new|Leaf::length)$"],
  "The tree cursor's offset always equals the start of the element it stands on",
  "Stepping into, over, out of, or on to the next element of a tree moves a cursor to the corresponding element and keeps its offset equal to that element's absolute start. A step that is impossible leaves the cursor where it was and says so.",
  ["histories"], "every tree and every sequence of steps", "A wrong offset after a particular sequence of steps (out after the last child, over a nested node) needs that sequence.",
  [OC + "tree/cursor.rs"], ["Cursor step operations", "Cursor::offset"])
s("T04", CORE, [C + r"visitor::"],
  "Walking a tree visits every element once, parents before children",
  "Pre-order iteration yields every element of the tree exactly once, each parent before its children and children from left to right; a visitor's default walk calls the node handler or the token handler for each child in order.",
  ["inputs"], "every tree", "The tests walk one or two shapes.",
  [OC + "visitor/mod.rs"], ["PreOrder", "Visitor::walk_node"])
# ---------------------------------------------------------------- parser
s("P01", CORE, [C + r"parser::state::ParserState::(current|peek|at$|not_at|eat|expect|advance|bump|skip_trivia|nested|source_id|syntax_error|unexpected_eof|record_|current_offset|arena)", C + r"parser::state::TokenSource::", r"^<oak_core::parser::state::TokenSource", C + r"parser::state::ParserState::new$", C + r"parser::state::TreeSink::push_leaf", C + r"lexer::Token::"],
  "The parser's view of its tokens is exact: looking is free, eating takes one",
  "Looking at the current or a later token, with or without skipping insignificant ones, changes nothing and reports the right token; eating or expecting a kind consumes that token when it matches, together with the insignificant ones around it, each becoming a leaf in order, and nothing otherwise. Expecting a kind that is not there records an error naming it at the current position.",
  ["inputs", "histories"], "every token list and every sequence of operations", "End of input and runs of insignificant tokens are corner cases samples rarely align with each operation.",
  [OC + "parser/state.rs"], ["ParserState token operations", "TokenSource"])
s("P02", CORE, [C + r"parser::state::ParserState::(checkpoint|finish|push_child|restore|try_parse|promote|new$|incremental_)", C + r"parser::state::TreeSink::", C + r"parser::state::TokenSource::(set_)?index", C + r"parser::state::deep_clone_node", C + r"tree::green_tree::GreenNode::(new|text_len)$", C + r"parser::(parse|parse_one_pass|parse_with_lexer)$"],
  "Finishing a node wraps exactly what was produced since its checkpoint",
  "Finishing a node at a checkpoint replaces everything produced since by one node holding it in order, with its exact length. A failed speculative parse puts both the token position and the tree under construction back as they were; a successful one keeps what it did.",
  ["histories"], "every sequence of checkpoints, pushes, restores and finishes", "Nested and abandoned checkpoints interact only in particular sequences.",
  [OC + "parser/state.rs", OC + "parser/mod.rs"], ["ParserState::finish_at", "ParserState::try_parse", "TreeSink", "ParserState::finish"])
s("P03", CORE, [C + r"parser::state::(IncrementalContext|deep_clone_node)", C + r"parser::state::ParserState::(try_reuse|incremental_|set_incremental)", C + r"tree::cursor::", C + r"parser::state::TokenSource::"],
  "Incremental parsing reuses a subtree only where nothing changed",
  "A subtree of the previous tree is reused only if it has the requested kind, starts at the current position once mapped back through the edits, and overlaps none of the edited ranges; the parser then continues right behind it.",
  ["inputs", "histories"], "every previous tree, every list of edits and every position", "The tests make a few edits to small inputs; the offset mapping after several edits and edits adjacent to a node are not covered.",
  [OC + "parser/state.rs"], ["ParserState::incremental_node", "ParserState::try_reuse"])
s("P04", CORE, [C + r"parser::pratt::", r"^<.*oak_core::parser::pratt::", C + r"parser::state::ParserState::(checkpoint|finish_at|expect|eat)", C + r"parser::state::TreeSink::finish_node"],
  "Operator precedence parsing respects binding strength and associativity",
  "An operator is taken into the expression being parsed only if it binds at least as strongly as the context demands; left- and non-associative operators parse their right operand one step tighter and right-associative ones at the same strength, and each operator node wraps precisely its operands.",
  ["inputs"], "every operator table and every expression", "Each pair of adjacent operators and associativities is a case of its own.",
  [OC + "parser/pratt.rs"], ["PrattParser", "binary", "unary", "postfix"])
s("P05", CORE, [r"oak_core::parser::session::"],
  "A parse session keeps the previous generation until the new one is committed",
  "Preparing a new parse keeps the storage of the last committed tree, however often it is repeated, allocates the new tree separately and forgets the earlier tokens; committing makes the new tree the last one. Token lookups answer from the lexer output stored last, and the tree offered for reuse is the one committed last.",
  ["histories"], "every sequence of prepare, commit and lookups", "Lifetime mistakes show only after several generations and then as memory corruption.",
  [OC + "parser/session.rs"], ["ParseSession", "ParseCache"])
s("P06", CORE, [C + r"memory::", r"^<oak_core::memory::"],
  "The arena hands out disjoint, aligned, initialised memory",
  "Each allocation gets memory that is large enough, disjoint from all other live allocations, aligned for its type up to the arena's own alignment and filled with the given values; a chunk is returned or reused only after the whole arena is dropped. Metadata is found again under the index it was stored with.",
  ["histories"], "every sequence of allocations of every size and alignment", "Requests that do not fit the current chunk, exceed the chunk size or need large alignment are separate paths.",
  [OC + "memory/arena.rs"], ["SyntaxArena::alloc*", "SyntaxArena drop"])
# ---------------------------------------------------------------- errors, roles
s("E01", CORE, [C + r"errors::", C + r"source::text::SourceText::(syntax_error|unexpected|expected|trailing)", r"as oak_core::source::Source>::syntax_error", C + r"source::Source::syntax_error"],
  "Every error keeps the kind, place and source it was created with",
  "Creating an error through any constructor gives an error of the corresponding kind carrying exactly the given position, source and text; each kind has its own message key, attaching a source changes nothing but the source, and a diagnostics result reports errors exactly when it has some.",
  ["inputs"], "every error kind and every argument", "There are more than twenty kinds with parallel code; tests look at a few.",
  [OC + "errors/mod.rs", OC + "errors/display.rs", OC + "errors/from_std.rs"], ["OakError constructors", "OakErrorKind::key", "OakError Display", "OakDiagnostics"])
s("E02", CORE, [C + r"(language|helpers)::"],
  "Universal roles answer consistently for every token and element",
  "For every token and element, the questions about its role (comment, whitespace, insignificant, error, root, end of stream) are answered from its one declared role, and every universal role has its own name.",
  ["inputs"], "every language, token kind and role", "Role tables are long lists of parallel cases.",
  [OC + "language/mod.rs", OC + "helpers/mod.rs"], ["TokenType::is_*", "ElementType::is_*", "UniversalTokenRole::name", "UniversalElementRole::name"])
# ---------------------------------------------------------------- vfs
VFS = (["oak-vfs"], ["oak_vfs", "oak_core"])
PV = "projects/oak-vfs/src/"
s("V01", VFS, [r"oak_vfs::vfs::memory::", r"^oak_vfs::Vfs::"],
  "The in-memory file system reads back what was last written",
  "After a write, reading the file returns exactly the text written, it exists, has the text's size and an identifier that maps back to it and stays the same across rewrites; after removal it is gone. Listing the files returns every file currently present, precisely once.",
  ["histories"], "every sequence of writes, removals, reads and listings over every set of names", "Name prefixes, nested directories and rewrite sequences are sampled by a couple of cases.",
  [PV + "vfs/memory.rs", PV + "lib.rs"], ["MemoryVfs"])
s("V02", VFS, [r"oak_vfs::line_map::"],
  "Offsets and line/column positions convert back and forth exactly",
  "For every text, each byte offset maps to the line containing it and the number of UTF-16 units before it on that line, and mapping a line and column back gives the offset of that character; positions past the end of a line clamp to where the next one starts, and positions past the last line to the end of the text.",
  ["inputs"], "every text and every offset or position, including astral characters and CRLF", "Test strings are ASCII or contain one wide character at one place.",
  [PV + "line_map.rs"], ["LineMap"])
s("V03", VFS, [r"oak_vfs::vfs::(disk|watch)::"],
  "The disk file system acts on exactly the named path",
  "An absolute file name denotes itself and a relative one the path below the file system's root; reading, existence, metadata, writing and removal act on exactly that path and report absence instead of failing. Change notifications name the path that changed and the kind of change.",
  ["inputs", "configurations"], "every URI and path", "Only the host platform's simple paths are tried.",
  [PV + "vfs/disk.rs", PV + "vfs/watch.rs"], ["DiskVfs", "DiskWatcher"])
# ---------------------------------------------------------------- lsp, mcp, repl
LSP = (["oak-lsp"], ["oak_lsp", "oak_vfs", "oak_core"])
s("W01", LSP, [r"oak_lsp::service::"],
  "Language service queries answer from the requested document's current text",
  "Each language service query looks up the requested document's current source and syntax tree and answers from those, or with an empty answer when the document is unknown; go-to-definition resolves the name under the cursor and listing files reaches every file below the given folder.",
  ["inputs", "histories"], "every document, position and query", "The tests call a few queries on one document.",
  ["projects/oak-lsp/src/service.rs"], ["LanguageService methods"])
s("W02", LSP, [r"oak_lsp::workspace::"],
  "A file belongs to a workspace exactly when it lies under one of its folders",
  "The workspace's folders are those given at initialisation plus those added since less those removed; a file's root is the folder that contains it, by whole path components, and a file is in the workspace exactly when it has such a root.",
  ["histories"], "every sequence of initialisation, additions and removals, and every path", "Prefix-related folder names and nested folders need specific configurations.",
  ["projects/oak-lsp/src/workspace.rs"], ["WorkspaceManager"])
s("W03", LSP, [r"oak_lsp::(types|server)::", r"^<oak_lsp::(types|server)::", "-Serialize|Deserialize"],
  "Protocol conversions keep location, name, kind and order",
  "Converting locations, symbols and structure items between the internal and the protocol form keeps name, kind, range and nesting; each syntactic role maps to its one symbol kind, and errors keep their category.",
  ["inputs"], "every value converted", "The kind tables are long; tests convert a few entries.",
  ["projects/oak-lsp/src/types.rs", "projects/oak-lsp/src/server.rs"], ["From conversions of the protocol types"])
s("M01", (["oak-mcp"], ["oak_mcp", "oak_vfs", "oak_core"]), [r"oak_mcp::"],
  "Every well-formed request gets one response that carries its id",
  "The tool server answers each well-formed request line with exactly one response line carrying the request's id, answers unknown methods and tools and missing parameters with the corresponding error code, never answers notifications or lines that are no request, and stops at the end of input.",
  ["inputs", "histories"], "every sequence of request lines", "Only the built-in methods' happy paths are exercised.",
  ["projects/oak-mcp/src/lib.rs"], ["McpServer::run", "McpServer::handle_request"])
s("R01", (["oak-repl"], ["oak_repl", "oak_core"]), [r"oak_repl::"],
  "The interactive line editor's buffer matches what was typed",
  "Typing inserts at the cursor and moves it behind the character, erasing removes the character before it (joining lines at the start of one), and what is handed to the evaluator is exactly the lines typed since the last complete input, joined by line breaks.",
  ["histories"], "every sequence of key presses", "The loop reads a terminal and has no tests.",
  ["projects/oak-repl/src/lib.rs"], ["LineBuffer", "OakRepl::run"])
# ---------------------------------------------------------------- highlight, diagnostics
HL = (["oak-highlight"], ["oak_highlight", "oak_core"])
s("H01", HL, [r"oak_highlight::exporters::"],
  "Exported highlights contain the source text, escaped for the target format",
  "Each exporter writes the text of every segment in order and exactly once, marked with that segment's style; for HTML and JSON the characters of the text that have a meaning there are replaced by their escapes, so that reading the output back gives the source text.",
  ["inputs"], "every highlighted text, style and exporter setting", "The tests export one short text without special characters.",
  ["projects/oak-highlight/src/exporters/mod.rs"], ["HtmlExporter", "AnsiExporter", "JsonExporter", "CssExporter"])
s("H02", HL, [r"oak_highlight::(highlighter|themes)", r"^<oak_highlight::(highlighter|themes)"],
  "Each token is highlighted with the style its most specific scope selects",
  "A token's style comes from the theme entry of its most specific scope that has one, falling back scope by scope to the default; every token of the text gets precisely one segment with its own span, and each role maps to its documented scopes.",
  ["inputs"], "every tree, role and theme", "There are dozens of roles; the tests check a few.",
  ["projects/oak-highlight/src/highlighter/mod.rs", "projects/oak-highlight/src/themes/mod.rs"], ["HighlightTheme::resolve_style", "OakHighlighter::highlight"])
s("D01", (["oak-diagnostic"], ["oak_diagnostic", "oak_vfs", "oak_core"]), [r"oak_diagnostic::"],
  "A rendered diagnostic shows its code or severity, message and place",
  "Every text emitter shows the diagnostic's code (without one, its severity), its (localised) message, for each label the file, line and column where its span starts with the source lines it covers, marked, and its help; the HTML form escapes messages and source text, and the protocol form gives severity and ranges in the protocol's units. Turning an error into a diagnostic keeps its code, message and position.",
  ["inputs"], "every diagnostic, span and text", "Multi-line spans, wide characters and spans at the end of the text are separate paths.",
  ["projects/oak-diagnostic/src/lib.rs"], ["Emitter::render", "Diagnostic::from"])
# ---------------------------------------------------------------- visualize
VZ = (["oak-visualize"], ["oak_visualize", "oak_core"])
PZ = "projects/oak-visualize/src/"
s("G01", VZ, [r"oak_visualize::geometry::"],
  "Geometry operations compute the textbook result",
  "Rectangles report edges, centre, containment, intersection and union as plane geometry defines them; transforms compose and apply as matrices, with identity, translation, scaling and rotation as their names say.",
  ["inputs"], "every point, size, rectangle and transform", "Tests cover a few axis-aligned cases; touching edges and composition order are not among them.",
  [PZ + "geometry/mod.rs"], ["Point", "Size", "Rect", "Transform"])
s("G02", VZ, [r"oak_visualize::graph::", r"^<oak_visualize::graph::"],
  "Graph queries and layouts follow the graph's edges",
  "Neighbours, degree, connectivity and cycles follow the graph's edges, counting undirected edges both ways; every layout gives each node precisely one position and each edge one line between its ends, placed as its algorithm prescribes.",
  ["inputs"], "every graph and layout setting", "Disconnected graphs, self-loops and mixed edges need particular graphs.",
  [PZ + "graph/mod.rs"], ["Graph", "GraphLayout"])
s("G03", VZ, [r"as oak_visualize::Visualize>::visualize$", r"oak_visualize::(tree|layout)::", r"^<oak_visualize::(tree|layout)::"],
  "Tree layouts place every node once, children within their parent's share",
  "Converting a syntax tree for display keeps its shape, labels and order; every tree layout places each node precisely once, one level further from the root than its parent, with siblings in order and apart by the configured distance, and draws one edge from each parent to each child.",
  ["inputs"], "every tree and layout setting", "Overlap or a dropped node shows only for particular shapes.",
  [PZ + "tree/mod.rs", PZ + "layout/mod.rs"], ["TreeLayout::visualize", "Layout", "TreeNode"])
s("G04", VZ, [r"oak_visualize::(render|theme)::", r"^<oak_visualize::(render|theme)::", r"oak_visualize::(to_svg|Error)", r"^<oak_visualize::Error"],
  "Rendered drawings contain every node and edge at its laid-out place",
  "The drawing contains a shape and label for every node and a line for every edge, at the laid-out coordinates shifted by the drawing's margin, in the style set for it or else the configured one; its size covers them all. Themes carry over their colours unchanged.",
  ["inputs"], "every layout, style and configuration", "Only smoke tests render anything.",
  [PZ + "render/mod.rs", PZ + "theme.rs"], ["SvgRenderer::render_layout", "LayoutExporter::export"])
# ---------------------------------------------------------------- pretty printing
PP = (["oak-pretty-print"], ["oak_pretty_print", "oak_core"])
PQ = "projects/oak-pretty-print/src/"
s("F01", PP, [r"oak_pretty_print::document::", r"^<oak_pretty_print::document::", r"oak_pretty_print::(indent|join)$"],
  "Pretty-printing keeps all text and breaks groups that do not fit",
  "Printing a document outputs all of its text in order; a group that fits in the remaining width is printed on one line, otherwise its breaks become line ends followed by the current indentation. Blanks at line ends are removed and a final line end is added precisely when configured.",
  ["inputs"], "every document and width", "Fitting decisions depend on the exact column; tests try a few widths.",
  [PQ + "document/mod.rs", PQ + "document/printer.rs"], ["Document::render", "Printer::print"])
s("F02", PP, [r"oak_pretty_print::comment::", r"^<oak_pretty_print::comment::"],
  "Comments survive formatting at their place",
  "Comments found in a tree are kept with kind, text and range; the queries for comments before, after or inside a range and for trailing ones return exactly those, in source order, and printing a comment reproduces its text.",
  ["inputs"], "every set of comments and range", "Ranges that touch a comment's ends need particular positions.",
  [PQ + "comment/mod.rs"], ["CommentCollector", "CommentProcessor", "Comment"])
s("F03", PP, [r"oak_pretty_print::(rules|builtin_rules|formatter|config|to_doc)::", r"^<oak_pretty_print::(rules|builtin_rules|formatter|config|to_doc)", r"^<.*oak_pretty_print::to_doc::", "-document::Document as"],
  "Formatting applies exactly the matching rules, by priority",
  "Every node and token is formatted by the applicable rule with the highest priority that produces something and otherwise by the default; rules are kept in descending priority, the parent context is the enclosing node's, and configuration settings are the ones given.",
  ["inputs", "configurations"], "every rule set, tree and configuration", "Priority ties and rules that decline need specific rule sets.",
  [PQ + "rules/mod.rs", PQ + "builtin_rules/mod.rs", PQ + "formatter/mod.rs", PQ + "config/mod.rs", PQ + "to_doc.rs"], ["RuleSet", "Formatter::format"])
# ---------------------------------------------------------------- semantic crates
SM = (["oak-resolver", "oak-symbols", "oak-navigation", "oak-semantic-search", "oak-folding"], ["oak_resolver", "oak_symbols", "oak_navigation", "oak_semantic_search", "oak_folding", "oak_core", "oak_vfs"])
s("N01", SM, [r"oak_resolver::", r"^<oak_resolver::"],
  "Symbol lookup finds what the files currently define",
  "After a file's symbols are updated, looking up a qualified name finds the symbol registered under it last, names the file no longer defines are gone, queries find all symbols whose qualified name contains the query, and a file's own query returns what was registered for that file. Module names resolve to the first existing file among the documented candidates.",
  ["histories"], "every sequence of updates and every query", "Several files and re-registrations are needed to see stale or missing entries.",
  ["projects/oak-resolver/src/lib.rs"], ["GlobalSymbolTable", "StandardResolver::resolve"])
s("N02", SM, [r"oak_(symbols|navigation|folding)::", r"^<oak_(symbols|navigation|folding)::"],
  "Document symbols and references are found in source order with their ranges",
  "Every definition element of a tree appears in the document symbols once, in tree order, with the first name directly inside it, its role, range and the name of the definition around it; finding references returns exactly the name tokens whose text equals the name, in order.",
  ["inputs"], "every tree", "Nesting and role combinations are sampled by a few inputs.",
  ["projects/oak-symbols/src/lib.rs", "projects/oak-navigation/src/lib.rs"], ["UniversalSymbolProvider", "SimpleReferenceFinder"])
s("N03", SM, [r"oak_semantic_search::", r"^<oak_semantic_search::"],
  "Semantic indexing splits code into its definitions and statements",
  "Chunking a file yields one chunk for every definition, statement or documentation element longer than twenty bytes, with its own text, range and role, in tree order and including nested ones. Searching where no engine is enabled says so.",
  ["inputs"], "every tree", "Only a smoke test exists.",
  ["projects/oak-semantic-search/src/lib.rs"], ["SemanticSearcher"])

# representation invariants the constructors and mutators of a type establish, used when its methods are compared
# ---------------------------------------------------------------- serialised forms
SERDE = (["oak-core", "oak-diagnostic", "oak-folding", "oak-highlight", "oak-hover", "oak-lsp", "oak-mcp", "oak-navigation", "oak-pretty-print", "oak-semantic-search", "oak-semantic-tokens",
          "oak-structural-view", "oak-symbols", "oak-testing", "oak-vfs", "oak-visualize"],
         ["oak_core", "oak_diagnostic", "oak_folding", "oak_highlight", "oak_hover", "oak_lsp", "oak_mcp", "oak_navigation", "oak_pretty_print", "oak_semantic_search", "oak_semantic_tokens",
          "oak_structural_view", "oak_symbols", "oak_testing", "oak_vfs", "oak_visualize"])
s("J01", SERDE, [C + r"serde_range::(option::)?(de)?serialize", C + r"serde_arc_str::", C + r"lexer::arc_slice_serde::"],
  "A value written as data is read back as the same value",
  "For every type that can be both written to and read from a data format, each field and each alternative is written under the name from which it is read back into the same field or alternative; nothing that has a value is left out. Ranges and shared texts, also optional ones, keep their start, end and content.",
  ["inputs"], "every serialisable type and every value of it",
  "The tests serialise none of most types, and a field that is skipped, renamed in one direction or swapped with another of the same type compiles and goes unnoticed.",
  [OC + "serde_range.rs", OC + "serde_arc_str.rs", "projects/oak-lsp/src/types.rs", "projects/oak-mcp/src/lib.rs", OC + "tree/metadata.rs", OC + "lexer/mod.rs"],
  ["Serialize and Deserialize of the tree, token, diagnostic, LSP, MCP, theme and layout types"])
HOLDS = [
    (r"^oak_core::parser::state::ParserState::try_reuse$", ['(call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) < call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0"))) + 1)']),
    (r"^<?oak_core::source::(rope::RopeBuffer|streaming::ChunkedBuffer)\b.*(get_text_in|chunk_at|chunk_index|boundary_index|split_at|replace_range)$", ["(len((*$0).chunks) == len((*$0).starts))"]),
    (r"^<?oak_core::source::(rope::RopeSource|streaming::ChunkedSource)\b.*(get_text_in|chunk_at)$", ["(len((*(*$0).chunks)) == len((*(*$0).starts)))"]),
    (r"^oak_core::source::(rope|streaming)::text_in_chunks$", ["(len((*$0)) == len((*$1)))"]),
]
