fn <oak_core::language::UniversalElementRole as oak_highlight::highlighter::ScopeProvider>::scopes
  given <oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::name
  let %1 = call "<oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::name"(rv(call "oak_core::language::ElementRole::universal"(rv((*$0)))))
  let %2 = (%1 === call "oak_core::language::ElementRole::name"(rv((*$0))))
  let %3 = vpush(vnew(), cat(<call "oak_core::language::ElementRole::name"(rv((*$0))), ".", $1>))
  let %4 = vpush(vpush(vpush(%3, cat(<"source.", %1>)), %1), cat(<"source.", $1>))
  let %5 = vpush(%3, call "oak_core::language::ElementRole::name"(rv((*$0))))
  let %6 = vpush(vpush(vpush(%5, cat(<"source.", %1>)), %1), cat(<"source.", $1>))
case
  if ($2 is Programming)
  if %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret %4
case
  if ($2 is Markup)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"markup.", %1>)), %1), cat(<"markup.", $1>))
case
  if ($2 is Markup)
  if %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"markup.", %1>)), %1), cat(<"markup.", $1>))
case
  if ($2 is Config)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"config.", %1>)), %1), cat(<"config.", $1>))
case
  if ($2 is Config)
  if %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"config.", %1>)), %1), cat(<"config.", $1>))
case
  if ($2 is StyleSheet)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret %6
case
  if ($2 is StyleSheet)
  if %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret %4
case
  if ($2 is Dsl)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"dsl.", %1>)), %1), cat(<"dsl.", $1>))
case
  if ($2 is Dsl)
  if %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"dsl.", %1>)), %1), cat(<"dsl.", $1>))
case
  if ($2 is Modeling)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret %6
case
  if ($2 is Modeling)
  if %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret %4
case
  if ($2 is Other)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret %6
case
  if ($2 is Other)
  if %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret %4
case
  if ($2 is Programming)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv((*$0)))
  do call "oak_core::language::ElementRole::universal"(rv((*$0)))
  do %1
  ret %6

fn <oak_core::language::UniversalTokenRole as oak_highlight::highlighter::ScopeProvider>::scopes
  given <oak_core::language::UniversalTokenRole as oak_core::language::TokenRole>::name
  let %1 = call "<oak_core::language::UniversalTokenRole as oak_core::language::TokenRole>::name"(rv(call "oak_core::language::TokenRole::universal"(rv((*$0)))))
  let %2 = (%1 === call "oak_core::language::TokenRole::name"(rv((*$0))))
  let %3 = vpush(vnew(), cat(<call "oak_core::language::TokenRole::name"(rv((*$0))), ".", $1>))
  let %4 = vpush(vpush(vpush(%3, cat(<"source.", %1>)), %1), cat(<"source.", $1>))
  let %5 = vpush(%3, call "oak_core::language::TokenRole::name"(rv((*$0))))
  let %6 = vpush(vpush(vpush(%5, cat(<"source.", %1>)), %1), cat(<"source.", $1>))
case
  if ($2 is Programming)
  if %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret %4
case
  if ($2 is Markup)
  if not %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"markup.", %1>)), %1), cat(<"markup.", $1>))
case
  if ($2 is Markup)
  if %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"markup.", %1>)), %1), cat(<"markup.", $1>))
case
  if ($2 is Config)
  if not %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"config.", %1>)), %1), cat(<"config.", $1>))
case
  if ($2 is Config)
  if %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"config.", %1>)), %1), cat(<"config.", $1>))
case
  if ($2 is StyleSheet)
  if not %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret %6
case
  if ($2 is StyleSheet)
  if %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret %4
case
  if ($2 is Dsl)
  if not %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"dsl.", %1>)), %1), cat(<"dsl.", $1>))
case
  if ($2 is Dsl)
  if %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"dsl.", %1>)), %1), cat(<"dsl.", $1>))
case
  if ($2 is Modeling)
  if not %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret %6
case
  if ($2 is Modeling)
  if %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret %4
case
  if ($2 is Other)
  if not %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret %6
case
  if ($2 is Other)
  if %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret %4
case
  if ($2 is Programming)
  if not %2
  do call "oak_core::language::TokenRole::name"(rv((*$0)))
  do call "oak_core::language::TokenRole::universal"(rv((*$0)))
  do %1
  ret %6

fn <oak_highlight::highlighter::HighlightSpan as core::convert::From<core::range::Range>>::from
case
  ret new "oak_highlight::highlighter::HighlightSpan"{start: $0.start, end: $0.end}

fn <oak_highlight::highlighter::HighlightStyle as core::default::Default>::default
case
  ret new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" None{}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}

fn <oak_highlight::highlighter::HighlightTheme as core::default::Default>::default
  let %1 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#001080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %2 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" None{}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %3 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#AF00DB"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
case
  ret new "oak_highlight::highlighter::HighlightTheme"{name: "default", styles: hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hnew(), "keyword", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#0000FF"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "keyword.operator", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#800080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "variable.other", %1), "constant", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#098658"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "constant.character.escape", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#FF6600"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "punctuation", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#000080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "comment", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#808080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 1, underline: 0}), "punctuation.whitespace", %2), "entity.name.function", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#795E26"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "entity.name.type", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#267F99"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "variable.other.declaration", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#795E26"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "comment.block.documentation", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#008000"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 1, underline: 0}), "meta.preprocessor", %3), "entity.other.attribute-name", %3), "entity.other.attribute-name.key", %1), "invalid", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#FF0000"}, background_color: new "core::option::Option" Some{0: "#FFCCCC"}, bold: 0, italic: 0, underline: 0}), "none", %2)}

fn <oak_highlight::highlighter::HighlightVisitor as oak_core::visitor::Visitor<L>>::visit_node
  given <oak_highlight::highlighter::HighlightVisitor as oak_core::visitor::Visitor<L>>::visit_token
  let %1 = sum(j0, 0, n("L0"), case{!((*(*$1.green).children)[?j0] is Leaf) => (*(*(*$1.green).children)[?j0]@Node.0).text_len; ((*(*$1.green).children)[?j0] is Leaf) => (*(*$1.green).children)[?j0]@Leaf.0.length})
  let %2 = call "<oak_highlight::highlighter::HighlightVisitor as oak_core::visitor::Visitor<L>>::visit_node"(rv(lv("L0", "v0")), new "oak_core::tree::red_tree::RedNode"{green: (*(*$1.green).children)[n("L0")]@Node.0, offset: ($1.offset + %1)})
  let %3 = call "<oak_highlight::highlighter::HighlightVisitor as oak_core::visitor::Visitor<L>>::visit_token"(rv(lv("L0", "v0")), new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*$1.green).children)[n("L0")]@Leaf.0.kind, span: new "range"{start: ($1.offset + %1), end: ($1.offset + %1 + (*(*$1.green).children)[n("L0")]@Leaf.0.length)}})
case
  if (len((*(*$1.green).children)) < n("L0") + 1)
  loop L0 | v0 from (*$0)
  set $0 := lv("L0", "v0")
  ret tup{}
pass L0
  if not (len((*(*$1.green).children)) < n("L0") + 1)
  if not ((*(*$1.green).children)[n("L0")] is Leaf)
  loop L0 | v0 from (*$0)
  do %2
  then v0 := post(0, %2)
pass L0
  if not (len((*(*$1.green).children)) < n("L0") + 1)
  if ((*(*$1.green).children)[n("L0")] is Leaf)
  loop L0 | v0 from (*$0)
  do %3
  then v0 := post(0, %3)

fn <oak_highlight::highlighter::HighlightVisitor as oak_core::visitor::Visitor<L>>::visit_token
  given <oak_core::language::UniversalTokenRole as oak_core::language::TokenRole>::name
  given oak_highlight::highlighter::HighlightTheme::resolve_styles
  let %1 = call "oak_core::language::TokenRole::name"(rv(call "oak_core::language::TokenType::role"(rv($1.kind))))
  let %2 = call "oak_core::language::TokenRole::universal"(rv(call "oak_core::language::TokenType::role"(rv($1.kind))))
  let %3 = call "<oak_core::language::UniversalTokenRole as oak_core::language::TokenRole>::name"(rv(%2))
  let %4 = vpush(vnew(), cat(<%1, ".", const('oak_core::language::Language::NAME', <'L'>)>))
  let %5 = call "oak_highlight::highlighter::HighlightTheme::resolve_styles"((*$0).theme, rv(vpush(vpush(vpush(%4, cat(<"source.", %3>)), %3), cat(<"source.", const('oak_core::language::Language::NAME', <'L'>)>))))
  let %6 = new "oak_highlight::highlighter::HighlightSpan"{start: $1.span.start, end: $1.span.end}
  let %7 = new "alloc::borrow::Cow" Borrowed{0: ref(<'T', slice((*(*$0).source), $1.span.start, $1.span.end)>, <>)}
  let %8 = call "oak_highlight::highlighter::HighlightTheme::resolve_styles"((*$0).theme, rv(vpush(vpush(vpush(vpush(%4, %1), cat(<"source.", %3>)), %3), cat(<"source.", const('oak_core::language::Language::NAME', <'L'>)>))))
case
  if (%1 === %3)
  do call "oak_core::language::TokenType::role"(rv($1.kind))
  do %1
  do %2
  do %3
  do %5
  set $0 := ((*$0) with {segments: vpush((*$0).segments, new "oak_highlight::highlighter::HighlightSegment"{span: %6, style: %5, text: %7})})
  ret tup{}
case
  if not (%1 === %3)
  do call "oak_core::language::TokenType::role"(rv($1.kind))
  do %1
  do %2
  do %3
  do %8
  set $0 := ((*$0) with {segments: vpush((*$0).segments, new "oak_highlight::highlighter::HighlightSegment"{span: %6, style: %8, text: %7})})
  ret tup{}

fn <oak_highlight::highlighter::OakHighlighter as core::default::Default>::default
  let %1 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#001080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %2 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" None{}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %3 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#AF00DB"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
case
  ret new "oak_highlight::highlighter::OakHighlighter"{theme: new "oak_highlight::highlighter::HighlightTheme"{name: "default", styles: hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hnew(), "keyword", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#0000FF"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "keyword.operator", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#800080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "variable.other", %1), "constant", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#098658"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "constant.character.escape", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#FF6600"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "punctuation", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#000080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "comment", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#808080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 1, underline: 0}), "punctuation.whitespace", %2), "entity.name.function", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#795E26"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "entity.name.type", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#267F99"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "variable.other.declaration", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#795E26"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "comment.block.documentation", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#008000"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 1, underline: 0}), "meta.preprocessor", %3), "entity.other.attribute-name", %3), "entity.other.attribute-name.key", %1), "invalid", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#FF0000"}, background_color: new "core::option::Option" Some{0: "#FFCCCC"}, bold: 0, italic: 0, underline: 0}), "none", %2)}}

fn <oak_highlight::highlighter::OakHighlighter as oak_highlight::highlighter::Highlighter>::highlight
  let %1 = new "core::result::Result" Ok{0: new "oak_highlight::highlighter::HighlightResult"{segments: vpush(vnew(), new "oak_highlight::highlighter::HighlightSegment"{span: new "oak_highlight::highlighter::HighlightSpan"{start: 0, end: len((*$1))}, style: new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" None{}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}, text: new "alloc::borrow::Cow" Borrowed{0: $1}}), source: new "alloc::borrow::Cow" Borrowed{0: $1}}}
case
  if ($3 is OneDarkPro)
  ret %1
case
  if ($3 is Default)
  ret %1
case
  if ($3 is OneLight)
  ret %1

fn oak_highlight::highlighter::HighlightTheme::get_element_style
  given <oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::name
  given oak_highlight::highlighter::HighlightTheme::resolve_style
  let %1 = call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, call "<oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::name"(rv($1)))
case
  do call "<oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::name"(rv($1))
  do %1
  ret %1

fn oak_highlight::highlighter::HighlightTheme::get_token_style
  given oak_highlight::highlighter::HighlightTheme::resolve_style
case
  if ($1 is Keyword)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "keyword")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "keyword")
case
  if ($1 is Name)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "variable.other")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "variable.other")
case
  if ($1 is Literal)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "constant")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "constant")
case
  if ($1 is Escape)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "constant.character.escape")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "constant.character.escape")
case
  if ($1 is Operator)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "keyword.operator")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "keyword.operator")
case
  if ($1 is Punctuation)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "punctuation")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "punctuation")
case
  if ($1 is Comment)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "comment")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "comment")
case
  if ($1 is Whitespace)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "punctuation.whitespace")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "punctuation.whitespace")
case
  if ($1 is Error)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "invalid")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "invalid")
case
  if ($1 is None)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "none")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "none")
case
  if ($1 is Eof)
  do call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "punctuation.eof")
  ret call "oak_highlight::highlighter::HighlightTheme::resolve_style"($0, "punctuation.eof")

fn oak_highlight::highlighter::HighlightTheme::one_dark_pro
  let %1 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#E06C75"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %2 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#98C379"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %3 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#D19A66"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %4 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#ABB2BF"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %5 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#5C6370"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 1, underline: 0}
  let %6 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" None{}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %7 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#C678DD"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
case
  ret new "oak_highlight::highlighter::HighlightTheme"{name: "One Dark Pro", styles: hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hnew(), "keyword", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#C678DD"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "name", %1), "literal", %2), "escape", %3), "operator", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#56B6C2"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "punctuation", %4), "comment", %5), "whitespace", %6), "definition", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#61AFEF"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "binding", %1), "reference", %4), "typing", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#E5C07B"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "documentation", %5), "metadata", %7), "attribute", %7), "attribute.key", %3), "call", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#61AFEF"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "value", %2), "error", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#E06C75"}, background_color: new "core::option::Option" Some{0: "#3E2723"}, bold: 0, italic: 0, underline: 0}), "none", %6)}

fn oak_highlight::highlighter::HighlightTheme::one_light
  let %1 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#E45649"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %2 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#50A14F"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %3 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#986801"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %4 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#383A42"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %5 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#A0A1A7"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 1, underline: 0}
  let %6 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" None{}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %7 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#A626A4"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
case
  ret new "oak_highlight::highlighter::HighlightTheme"{name: "One Light", styles: hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hnew(), "keyword", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#A626A4"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "name", %1), "literal", %2), "escape", %3), "operator", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#0184BC"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "punctuation", %4), "comment", %5), "whitespace", %6), "definition", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#4078F2"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "binding", %1), "reference", %4), "typing", %3), "documentation", %5), "metadata", %7), "attribute", %7), "attribute.key", %3), "call", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#4078F2"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "value", %2), "error", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#E45649"}, background_color: new "core::option::Option" Some{0: "#FFEAEA"}, bold: 0, italic: 0, underline: 0}), "none", %6)}

fn oak_highlight::highlighter::HighlightTheme::resolve_style
case
  if (len((*lv("L0", "v0"))) == 0)
  if (hget((*$0).styles, "none") is Some)
  loop L0 | v0 from $1
  ret hget((*$0).styles, "none")@Some.0
pass L0
  if not (len((*lv("L0", "v0"))) == 0)
  if not (hget((*$0).styles, lv("L0", "v0")) is Some)
  if (call "str::rfind"(lv("L0", "v0"), 46) is Some)
  loop L0 | v0 from $1
  do call "str::rfind"(lv("L0", "v0"), 46)
  then v0 := rv(slice((*lv("L0", "v0")), 0, call "str::rfind"(lv("L0", "v0"), 46)@Some.0))
case
  if (len((*lv("L0", "v0"))) == 0)
  if not (hget((*$0).styles, "none") is Some)
  loop L0 | v0 from $1
  ret call "default"("oak_highlight::highlighter::HighlightStyle")
case
  if not (len((*lv("L0", "v0"))) == 0)
  if (hget((*$0).styles, lv("L0", "v0")) is Some)
  loop L0 | v0 from $1
  ret new "oak_highlight::highlighter::HighlightStyle"{color: hget((*$0).styles, lv("L0", "v0"))@Some.0.color, background_color: hget((*$0).styles, lv("L0", "v0"))@Some.0.background_color, bold: hget((*$0).styles, lv("L0", "v0"))@Some.0.bold, italic: hget((*$0).styles, lv("L0", "v0"))@Some.0.italic, underline: hget((*$0).styles, lv("L0", "v0"))@Some.0.underline}
case
  if not (len((*lv("L0", "v0"))) == 0)
  if not (hget((*$0).styles, lv("L0", "v0")) is Some)
  if not (call "str::rfind"(lv("L0", "v0"), 46) is Some)
  if (hget((*$0).styles, "none") is Some)
  loop L0 | v0 from $1
  do call "str::rfind"(lv("L0", "v0"), 46)
  ret hget((*$0).styles, "none")@Some.0
case
  if not (len((*lv("L0", "v0"))) == 0)
  if not (hget((*$0).styles, lv("L0", "v0")) is Some)
  if not (call "str::rfind"(lv("L0", "v0"), 46) is Some)
  if not (hget((*$0).styles, "none") is Some)
  loop L0 | v0 from $1
  do call "str::rfind"(lv("L0", "v0"), 46)
  ret call "default"("oak_highlight::highlighter::HighlightStyle")

fn oak_highlight::highlighter::HighlightTheme::resolve_styles
case
  if not (n("L0") < len((*$1)))
  if (lv("L0", "v1") is Some)
  loop L0 | v0 from -1 | v1 from new "core::option::Option" None{}
  ret lv("L0", "v1")@Some.0
pass L0
  if (n("L0") < len((*$1)))
  if (len((*lv("L1", "v0"))) == 0)
  loop L0 | v0 from -1 | v1 from new "core::option::Option" None{}
  loop L1 | v0 from ref(P($1), <<'pidx', n("L0")>>) | v1 from len(call "str::split"((*$1)[n("L0")], 46))
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L1
  if not (len((*lv("L1", "v0"))) == 0)
  if not (hget((*$0).styles, lv("L1", "v0")) is Some)
  if (call "str::rfind"(lv("L1", "v0"), 46) is Some)
  loop L0 | v0 from -1 | v1 from new "core::option::Option" None{}
  loop L1 | v0 from ref(P($1), <<'pidx', n("L0")>>) | v1 from len(call "str::split"((*$1)[n("L0")], 46))
  do call "str::rfind"(lv("L1", "v0"), 46)
  then v0 := rv(slice((*lv("L1", "v0")), 0, call "str::rfind"(lv("L1", "v0"), 46)@Some.0))
  then v1 := (lv("L1", "v1") - 1)
pass L0
  if (n("L0") < len((*$1)))
  if not (len((*lv("L1", "v0"))) == 0)
  if (hget((*$0).styles, lv("L1", "v0")) is Some)
  if (lv("L1", "v1") < lv("L0", "v0") + 1)
  loop L0 | v0 from -1 | v1 from new "core::option::Option" None{}
  loop L1 | v0 from ref(P($1), <<'pidx', n("L0")>>) | v1 from len(call "str::split"((*$1)[n("L0")], 46))
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L0
  if (n("L0") < len((*$1)))
  if not (len((*lv("L1", "v0"))) == 0)
  if (hget((*$0).styles, lv("L1", "v0")) is Some)
  if not (lv("L1", "v1") < lv("L0", "v0") + 1)
  loop L0 | v0 from -1 | v1 from new "core::option::Option" None{}
  loop L1 | v0 from ref(P($1), <<'pidx', n("L0")>>) | v1 from len(call "str::split"((*$1)[n("L0")], 46))
  then v0 := lv("L1", "v1")
  then v1 := new "core::option::Option" Some{0: new "oak_highlight::highlighter::HighlightStyle"{color: hget((*$0).styles, lv("L1", "v0"))@Some.0.color, background_color: hget((*$0).styles, lv("L1", "v0"))@Some.0.background_color, bold: hget((*$0).styles, lv("L1", "v0"))@Some.0.bold, italic: hget((*$0).styles, lv("L1", "v0"))@Some.0.italic, underline: hget((*$0).styles, lv("L1", "v0"))@Some.0.underline}}
pass L0
  if (n("L0") < len((*$1)))
  if not (len((*lv("L1", "v0"))) == 0)
  if not (hget((*$0).styles, lv("L1", "v0")) is Some)
  if not (call "str::rfind"(lv("L1", "v0"), 46) is Some)
  loop L0 | v0 from -1 | v1 from new "core::option::Option" None{}
  loop L1 | v0 from ref(P($1), <<'pidx', n("L0")>>) | v1 from len(call "str::split"((*$1)[n("L0")], 46))
  do call "str::rfind"(lv("L1", "v0"), 46)
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
case
  if not (n("L0") < len((*$1)))
  if not (lv("L0", "v1") is Some)
  if not (hget((*$0).styles, "none") is Some)
  loop L0 | v0 from -1 | v1 from new "core::option::Option" None{}
  ret call "default"("oak_highlight::highlighter::HighlightStyle")
case
  if not (n("L0") < len((*$1)))
  if not (lv("L0", "v1") is Some)
  if (hget((*$0).styles, "none") is Some)
  loop L0 | v0 from -1 | v1 from new "core::option::Option" None{}
  ret hget((*$0).styles, "none")@Some.0

fn oak_highlight::highlighter::OakHighlighter::highlight
  let %1 = new "core::result::Result" Ok{0: new "oak_highlight::highlighter::HighlightResult"{segments: vpush(vnew(), new "oak_highlight::highlighter::HighlightSegment"{span: new "oak_highlight::highlighter::HighlightSpan"{start: 0, end: len((*$1))}, style: new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" None{}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}, text: new "alloc::borrow::Cow" Borrowed{0: $1}}), source: new "alloc::borrow::Cow" Borrowed{0: $1}}}
case
  if ($3 is OneDarkPro)
  ret %1
case
  if ($3 is OneLight)
  ret %1
case
  if ($3 is Default)
  ret %1

fn oak_highlight::highlighter::OakHighlighter::highlight_format
  given <oak_highlight::exporters::AnsiExporter as oak_highlight::exporters::Exporter>::export
  given <oak_highlight::exporters::CssExporter as oak_highlight::exporters::Exporter>::export
  given <oak_highlight::exporters::HtmlExporter as oak_highlight::exporters::Exporter>::export
  given <oak_highlight::exporters::JsonExporter as oak_highlight::exporters::Exporter>::export
  given oak_core::errors::OakError::unsupported_format
  given oak_highlight::exporters::HtmlExporter::new
  given oak_highlight::highlighter::OakHighlighter::highlight
  let %1 = call "oak_highlight::highlighter::OakHighlighter::highlight"($0, $1, $2, $3)
  let %2 = call "<oak_highlight::exporters::HtmlExporter as oak_highlight::exporters::Exporter>::export"(rv(call "oak_highlight::exporters::HtmlExporter::new"(1, 1)), rv(%1@Ok.0))
  let %3 = call "<oak_highlight::exporters::AnsiExporter as oak_highlight::exporters::Exporter>::export"(rv(new "oak_highlight::exporters::AnsiExporter"{}), rv(%1@Ok.0))
  let %4 = call "<oak_highlight::exporters::JsonExporter as oak_highlight::exporters::Exporter>::export"(rv(new "oak_highlight::exporters::JsonExporter"{pretty: 1}), rv(%1@Ok.0))
  let %5 = call "<oak_highlight::exporters::CssExporter as oak_highlight::exporters::Exporter>::export"(rv(new "oak_highlight::exporters::CssExporter"{}), rv(%1@Ok.0))
case
  if (%1 is Err)
  do %1
  ret new "core::result::Result" Err{0: %1@Err.0}
case
  if not (%1 is Err)
  if ($4 is Html)
  do %1
  do call "oak_highlight::exporters::HtmlExporter::new"(1, 1)
  do %2
  ret new "core::result::Result" Ok{0: %2}
case
  if not (%1 is Err)
  if ($4 is Ansi)
  do %1
  do %3
  ret new "core::result::Result" Ok{0: %3}
case
  if not (%1 is Err)
  if ($4 is Xml)
  do %1
  do call "oak_core::errors::OakError::unsupported_format"(display('?', $4))
  ret new "core::result::Result" Err{0: call "oak_core::errors::OakError::unsupported_format"(display('?', $4))}
case
  if not (%1 is Err)
  if ($4 is Json)
  do %1
  do %4
  ret new "core::result::Result" Ok{0: %4}
case
  if not (%1 is Err)
  if ($4 is Css)
  do %1
  do %5
  ret new "core::result::Result" Ok{0: %5}

fn oak_highlight::highlighter::OakHighlighter::highlight_with_language
  given <oak_highlight::highlighter::HighlightVisitor as oak_core::visitor::Visitor<L>>::visit_node
  given oak_core::parser::session::ParseSession::new
  given oak_core::source::text::SourceText::new
  given oak_core::tree::red_tree::RedNode::new
  given oak_highlight::themes::Theme::get_theme
  let %1 = call "oak_core::parser::Parser::parse"($3, rv(call "oak_core::source::text::SourceText::new"((*$1))), rv(new "[]"{}), rv(call "oak_core::parser::session::ParseSession::new"(1024)))
  let %2 = call "oak_core::tree::red_tree::RedNode::new"(%1.result@Ok.0, 0)
  let %3 = call "<oak_highlight::highlighter::HighlightVisitor as oak_core::visitor::Visitor<L>>::visit_node"(rv(new "oak_highlight::highlighter::HighlightVisitor"{theme: rv(call "oak_highlight::themes::Theme::get_theme"($2)), segments: vnew(), source: $1}), %2)
case
  if (%1.result is Err)
  do call "oak_highlight::themes::Theme::get_theme"($2)
  do call "oak_core::source::text::SourceText::new"((*$1))
  do call "oak_core::parser::session::ParseSession::new"(1024)
  do %1
  ret new "core::result::Result" Err{0: %1.result@Err.0}
case
  if not (%1.result is Err)
  do call "oak_highlight::themes::Theme::get_theme"($2)
  do call "oak_core::source::text::SourceText::new"((*$1))
  do call "oak_core::parser::session::ParseSession::new"(1024)
  do %1
  do %2
  do %3
  ret new "core::result::Result" Ok{0: new "oak_highlight::highlighter::HighlightResult"{segments: post(0, %3).segments, source: new "alloc::borrow::Cow" Borrowed{0: $1}}}

fn oak_highlight::highlighter::OakHighlighter::new
  let %1 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#001080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %2 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" None{}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
  let %3 = new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#AF00DB"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}
case
  ret new "oak_highlight::highlighter::OakHighlighter"{theme: new "oak_highlight::highlighter::HighlightTheme"{name: "default", styles: hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hins(hnew(), "keyword", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#0000FF"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "keyword.operator", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#800080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "variable.other", %1), "constant", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#098658"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "constant.character.escape", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#FF6600"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "punctuation", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#000080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "comment", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#808080"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 1, underline: 0}), "punctuation.whitespace", %2), "entity.name.function", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#795E26"}, background_color: new "core::option::Option" None{}, bold: 1, italic: 0, underline: 0}), "entity.name.type", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#267F99"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "variable.other.declaration", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#795E26"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 0, underline: 0}), "comment.block.documentation", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#008000"}, background_color: new "core::option::Option" None{}, bold: 0, italic: 1, underline: 0}), "meta.preprocessor", %3), "entity.other.attribute-name", %3), "entity.other.attribute-name.key", %1), "invalid", new "oak_highlight::highlighter::HighlightStyle"{color: new "core::option::Option" Some{0: "#FF0000"}, background_color: new "core::option::Option" Some{0: "#FFCCCC"}, bold: 0, italic: 0, underline: 0}), "none", %2)}}

fn oak_highlight::highlighter::OakHighlighter::theme
  given oak_highlight::themes::Theme::get_theme
case
  do call "oak_highlight::themes::Theme::get_theme"($1)
  ret ($0 with {theme: call "oak_highlight::themes::Theme::get_theme"($1)})

fn oak_highlight::highlighter::OakHighlighter::with_theme
case
  ret ($0 with {theme: $1})

fn oak_highlight::highlighter::get_element_scopes  [private]
  takes R; &str; oak_core::language::LanguageCategory
  given <oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::name
  let %1 = call "<oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::name"(rv(call "oak_core::language::ElementRole::universal"(rv($0))))
  let %2 = (%1 === call "oak_core::language::ElementRole::name"(rv($0)))
  let %3 = vpush(vnew(), cat(<call "oak_core::language::ElementRole::name"(rv($0)), ".", $1>))
  let %4 = vpush(vpush(vpush(%3, cat(<"source.", %1>)), %1), cat(<"source.", $1>))
  let %5 = vpush(%3, call "oak_core::language::ElementRole::name"(rv($0)))
  let %6 = vpush(vpush(vpush(%5, cat(<"source.", %1>)), %1), cat(<"source.", $1>))
case
  if ($2 is Programming)
  if %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret %4
case
  if ($2 is Programming)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret %6
case
  if ($2 is Other)
  if %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret %4
case
  if ($2 is Other)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret %6
case
  if ($2 is Modeling)
  if %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret %4
case
  if ($2 is Modeling)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret %6
case
  if ($2 is Dsl)
  if %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"dsl.", %1>)), %1), cat(<"dsl.", $1>))
case
  if ($2 is Dsl)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"dsl.", %1>)), %1), cat(<"dsl.", $1>))
case
  if ($2 is StyleSheet)
  if %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret %4
case
  if ($2 is StyleSheet)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret %6
case
  if ($2 is Config)
  if %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"config.", %1>)), %1), cat(<"config.", $1>))
case
  if ($2 is Config)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"config.", %1>)), %1), cat(<"config.", $1>))
case
  if ($2 is Markup)
  if %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%3, cat(<"markup.", %1>)), %1), cat(<"markup.", $1>))
case
  if ($2 is Markup)
  if not %2
  do call "oak_core::language::ElementRole::name"(rv($0))
  do call "oak_core::language::ElementRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%5, cat(<"markup.", %1>)), %1), cat(<"markup.", $1>))

fn oak_highlight::highlighter::get_token_scopes  [private]
  takes R; &str; oak_core::language::LanguageCategory
  given <oak_core::language::UniversalTokenRole as oak_core::language::TokenRole>::name
  let %1 = call "<oak_core::language::UniversalTokenRole as oak_core::language::TokenRole>::name"(rv(call "oak_core::language::TokenRole::universal"(rv($0))))
  let %2 = vpush(vnew(), cat(<call "oak_core::language::TokenRole::name"(rv($0)), ".", $1>))
  let %3 = vpush(vpush(vpush(%2, cat(<"source.", %1>)), %1), cat(<"source.", $1>))
  let %4 = vpush(%2, call "oak_core::language::TokenRole::name"(rv($0)))
  let %5 = vpush(vpush(vpush(%4, cat(<"source.", %1>)), %1), cat(<"source.", $1>))
case
  if ($2 is Programming)
  if (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret %3
case
  if ($2 is Programming)
  if not (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret %5
case
  if ($2 is Other)
  if (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret %3
case
  if ($2 is Other)
  if not (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret %5
case
  if ($2 is Modeling)
  if (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret %3
case
  if ($2 is Modeling)
  if not (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret %5
case
  if ($2 is Dsl)
  if (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%2, cat(<"dsl.", %1>)), %1), cat(<"dsl.", $1>))
case
  if ($2 is Dsl)
  if not (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%4, cat(<"dsl.", %1>)), %1), cat(<"dsl.", $1>))
case
  if ($2 is StyleSheet)
  if (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret %3
case
  if ($2 is StyleSheet)
  if not (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret %5
case
  if ($2 is Config)
  if (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%2, cat(<"config.", %1>)), %1), cat(<"config.", $1>))
case
  if ($2 is Config)
  if not (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%4, cat(<"config.", %1>)), %1), cat(<"config.", $1>))
case
  if ($2 is Markup)
  if (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%2, cat(<"markup.", %1>)), %1), cat(<"markup.", $1>))
case
  if ($2 is Markup)
  if not (%1 === call "oak_core::language::TokenRole::name"(rv($0)))
  do call "oak_core::language::TokenRole::name"(rv($0))
  do call "oak_core::language::TokenRole::universal"(rv($0))
  do %1
  ret vpush(vpush(vpush(%4, cat(<"markup.", %1>)), %1), cat(<"markup.", $1>))

fn oak_highlight::themes::Theme::get_theme
  given <oak_highlight::highlighter::HighlightTheme as core::default::Default>::default
  given oak_highlight::highlighter::HighlightTheme::one_dark_pro
  given oak_highlight::highlighter::HighlightTheme::one_light
case
  if ($0 is OneDarkPro)
  do call "oak_highlight::highlighter::HighlightTheme::one_dark_pro"()
  ret call "oak_highlight::highlighter::HighlightTheme::one_dark_pro"()
case
  if ($0 is Default)
  do call "<oak_highlight::highlighter::HighlightTheme as core::default::Default>::default"()
  ret call "<oak_highlight::highlighter::HighlightTheme as core::default::Default>::default"()
case
  if ($0 is OneLight)
  do call "oak_highlight::highlighter::HighlightTheme::one_light"()
  ret call "oak_highlight::highlighter::HighlightTheme::one_light"()
