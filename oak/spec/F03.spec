fn <&T as oak_pretty_print::to_doc::AsDocument>::as_document
case
  do call "oak_pretty_print::to_doc::AsDocument::as_document"((*$0))
  ret call "oak_pretty_print::to_doc::AsDocument::as_document"((*$0))

fn <&T as oak_pretty_print::to_doc::ToDocument>::to_document
case
  do call "oak_pretty_print::to_doc::AsDocument::as_document"($0)
  ret call "oak_pretty_print::to_doc::AsDocument::as_document"($0)

fn <alloc::boxed::Box as oak_pretty_print::to_doc::AsDocument>::as_document
case
  do call "oak_pretty_print::to_doc::AsDocument::as_document"((*$0))
  ret call "oak_pretty_print::to_doc::AsDocument::as_document"((*$0))

fn <alloc::string::String as oak_pretty_print::to_doc::AsDocument>::as_document
case
  ret new "oak_pretty_print::document::Document" Text{0: $0}

fn <alloc::string::String as oak_pretty_print::to_doc::ToDocument>::to_document
case
  ret new "oak_pretty_print::document::Document" Text{0: $0}

fn <alloc::vec::Vec as oak_pretty_print::to_doc::AsDocument>::as_document
  let %1 = call "oak_pretty_print::to_doc::AsDocument::as_document"(rv((*$0)[n("L0")]))
case
  if (len((*$0)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  ret new "oak_pretty_print::document::Document" Concat{0: lv("L0", "v0")}
pass L0
  if not (len((*$0)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  do %1
  then v0 := vpush(lv("L0", "v0"), %1)

fn <core::option::Option as oak_pretty_print::to_doc::AsDocument>::as_document
  let %1 = call "oak_pretty_print::to_doc::AsDocument::as_document"(rv((*$0)@Some.0))
case
  if ((*$0) is Some)
  do %1
  ret %1
case
  if not ((*$0) is Some)
  ret new "oak_pretty_print::document::Document" Nil{}

fn <oak_pretty_print::builtin_rules::create_builtin_rules::comma_spacing as oak_pretty_print::rules::FormatRule<L>>::applies_to_node
case
  ret 0

fn <oak_pretty_print::builtin_rules::create_builtin_rules::comma_spacing as oak_pretty_print::rules::FormatRule<L>>::applies_to_token
  let %1 = call "oak_core::language::TokenType::is_universal"(rv((*$1).kind), new "oak_core::language::UniversalTokenRole" Punctuation{})
case
  do %1
  ret %1

fn <oak_pretty_print::builtin_rules::create_builtin_rules::comma_spacing as oak_pretty_print::rules::FormatRule<L>>::apply_node
case
  ret new "core::result::Result" Ok{0: new "core::option::Option" None{}}

fn <oak_pretty_print::builtin_rules::create_builtin_rules::comma_spacing as oak_pretty_print::rules::FormatRule<L>>::apply_token
case
  if ("," === slice((*$3), (*$1).span.start, (*$1).span.end))
  ret new "core::result::Result" Ok{0: new "core::option::Option" Some{0: new "oak_pretty_print::document::Document" Concat{0: vpush(vpush(vnew(), new "oak_pretty_print::document::Document" Text{0: ","}), new "oak_pretty_print::document::Document" SoftLineSpace{})}}}
case
  if not ("," === slice((*$3), (*$1).span.start, (*$1).span.end))
  ret new "core::result::Result" Ok{0: new "core::option::Option" None{}}

fn <oak_pretty_print::builtin_rules::create_builtin_rules::comma_spacing as oak_pretty_print::rules::FormatRule<L>>::name
case
  ret "comma_spacing"

fn <oak_pretty_print::builtin_rules::create_builtin_rules::comma_spacing as oak_pretty_print::rules::FormatRule<L>>::priority
case
  ret 6

fn <oak_pretty_print::builtin_rules::create_builtin_rules::indent as oak_pretty_print::rules::FormatRule<L>>::applies_to_node
  let %1 = call "oak_core::language::ElementType::is_universal"(rv((*(*$1).green).kind), new "oak_core::language::UniversalElementRole" Container{})
case
  do %1
  ret %1

fn <oak_pretty_print::builtin_rules::create_builtin_rules::indent as oak_pretty_print::rules::FormatRule<L>>::applies_to_token
case
  ret 0

fn <oak_pretty_print::builtin_rules::create_builtin_rules::indent as oak_pretty_print::rules::FormatRule<L>>::apply_node
  let %1 = (call "core::ops::function::Fn::call"($4, tup{0: $1}) is Err)
case
  if %1
  do call "core::ops::function::Fn::call"($4, tup{0: $1})
  ret new "core::result::Result" Err{0: call "core::ops::function::Fn::call"($4, tup{0: $1})@Err.0}
case
  if not %1
  do call "core::ops::function::Fn::call"($4, tup{0: $1})
  ret new "core::result::Result" Ok{0: new "core::option::Option" Some{0: new "oak_pretty_print::document::Document" Group{0: box(new "oak_pretty_print::document::Document" Indent{0: box(new "oak_pretty_print::document::Document" Concat{0: vpush(vpush(vnew(), new "oak_pretty_print::document::Document" Line{}), call "core::ops::function::Fn::call"($4, tup{0: $1})@Ok.0)})})}}}

fn <oak_pretty_print::builtin_rules::create_builtin_rules::indent as oak_pretty_print::rules::FormatRule<L>>::apply_token
case
  ret new "core::result::Result" Ok{0: new "core::option::Option" None{}}

fn <oak_pretty_print::builtin_rules::create_builtin_rules::indent as oak_pretty_print::rules::FormatRule<L>>::name
case
  ret "indent"

fn <oak_pretty_print::builtin_rules::create_builtin_rules::indent as oak_pretty_print::rules::FormatRule<L>>::priority
case
  ret 10

fn <oak_pretty_print::builtin_rules::create_builtin_rules::statement_newline as oak_pretty_print::rules::FormatRule<L>>::applies_to_node
  let %1 = call "oak_core::language::ElementType::is_universal"(rv((*(*$1).green).kind), new "oak_core::language::UniversalElementRole" Statement{})
case
  do %1
  ret %1

fn <oak_pretty_print::builtin_rules::create_builtin_rules::statement_newline as oak_pretty_print::rules::FormatRule<L>>::applies_to_token
case
  ret 0

fn <oak_pretty_print::builtin_rules::create_builtin_rules::statement_newline as oak_pretty_print::rules::FormatRule<L>>::apply_node
  let %1 = (call "core::ops::function::Fn::call"($4, tup{0: $1}) is Err)
case
  if %1
  do call "core::ops::function::Fn::call"($4, tup{0: $1})
  ret new "core::result::Result" Err{0: call "core::ops::function::Fn::call"($4, tup{0: $1})@Err.0}
case
  if not %1
  do call "core::ops::function::Fn::call"($4, tup{0: $1})
  ret new "core::result::Result" Ok{0: new "core::option::Option" Some{0: new "oak_pretty_print::document::Document" Concat{0: vpush(vpush(vnew(), call "core::ops::function::Fn::call"($4, tup{0: $1})@Ok.0), new "oak_pretty_print::document::Document" Line{})}}}

fn <oak_pretty_print::builtin_rules::create_builtin_rules::statement_newline as oak_pretty_print::rules::FormatRule<L>>::apply_token
case
  ret new "core::result::Result" Ok{0: new "core::option::Option" None{}}

fn <oak_pretty_print::builtin_rules::create_builtin_rules::statement_newline as oak_pretty_print::rules::FormatRule<L>>::name
case
  ret "statement_newline"

fn <oak_pretty_print::builtin_rules::create_builtin_rules::statement_newline as oak_pretty_print::rules::FormatRule<L>>::priority
case
  ret 5

fn <oak_pretty_print::config::FormatConfig as core::default::Default>::default
case
  do call "str::repeat"(" ", 4)
  ret new "oak_pretty_print::config::FormatConfig"{indent_style: new "oak_pretty_print::config::IndentStyle" Spaces{0: 4}, indent_text: call "str::repeat"(" ", 4), line_ending: new "oak_pretty_print::config::LineEnding" Auto{}, max_width: 100, insert_final_newline: 1, trim_trailing_whitespace: 1, preserve_blank_lines: 1, max_blank_lines: 2, format_comments: 1, format_strings: 0, indent_size: 4}

fn <oak_pretty_print::config::IndentStyle as core::default::Default>::default
case
  ret new "oak_pretty_print::config::IndentStyle" Spaces{0: 4}

fn <oak_pretty_print::config::LineEnding as core::default::Default>::default
case
  ret new "oak_pretty_print::config::LineEnding" Auto{}

fn <oak_pretty_print::rules::RuleSet as core::default::Default>::default
case
  ret new "oak_pretty_print::rules::RuleSet"{rules: vnew()}

fn <str as oak_pretty_print::to_doc::AsDocument>::as_document
case
  ret new "oak_pretty_print::document::Document" Text{0: $0}

fn oak_pretty_print::builtin_rules::create_builtin_rules
case
  ret vpush(vpush(vpush(vnew(), box(new "oak_pretty_print::builtin_rules::create_builtin_rules::indent"{0: new "core::marker::PhantomData"{}})), box(new "oak_pretty_print::builtin_rules::create_builtin_rules::statement_newline"{0: new "core::marker::PhantomData"{}})), box(new "oak_pretty_print::builtin_rules::create_builtin_rules::comma_spacing"{0: new "core::marker::PhantomData"{}}))

fn oak_pretty_print::config::FormatConfig::line_ending_string
case
  if ((*$0).line_ending is Unix)
  ret "\n"
case
  if ((*$0).line_ending is Auto)
  ret "\n"
case
  if ((*$0).line_ending is Windows)
  ret "\r\n"

fn oak_pretty_print::config::FormatConfig::new
case
  do call "str::repeat"(" ", 4)
  ret new "oak_pretty_print::config::FormatConfig"{indent_style: new "oak_pretty_print::config::IndentStyle" Spaces{0: 4}, indent_text: call "str::repeat"(" ", 4), line_ending: new "oak_pretty_print::config::LineEnding" Auto{}, max_width: 100, insert_final_newline: 1, trim_trailing_whitespace: 1, preserve_blank_lines: 1, max_blank_lines: 2, format_comments: 1, format_strings: 0, indent_size: 4}

fn oak_pretty_print::config::FormatConfig::with_indent_style
case
  if ($1 is Tabs)
  ret ($0 with {indent_size: 4, indent_style: $1, indent_text: "\t"})
case
  if not ($1 is Tabs)
  do call "str::repeat"(" ", $1@Spaces.0)
  ret ($0 with {indent_size: $1@Spaces.0, indent_style: $1, indent_text: call "str::repeat"(" ", $1@Spaces.0)})

fn oak_pretty_print::config::FormatConfig::with_line_ending
case
  ret ($0 with {line_ending: $1})

fn oak_pretty_print::config::FormatConfig::with_max_width
case
  ret ($0 with {max_width: $1})

fn oak_pretty_print::formatter::FormatContext::enter
case
  ret new "oak_pretty_print::formatter::FormatContext"{config: (*$0).config, comment_processor: (*$0).comment_processor, source: (*$0).source, depth: ((*$0).depth + 1), path: new "core::option::Option" Some{0: box(new "oak_pretty_print::formatter::PathNode"{kind: $1, parent: (*$0).path})}}

fn oak_pretty_print::formatter::FormatContext::is_inside
case
  if ((*$0).path is Some)
  if (lv("L0", "v0") is Some)
  if ($1 === (*(*lv("L0", "v0")@Some.0)).kind)
  loop L0 | v0 from new "core::option::Option" Some{0: ref(P($0), <'.path', '@Some', '.0'>)}
  ret 1
pass L0
  if (lv("L0", "v0") is Some)
  if not ($1 === (*(*lv("L0", "v0")@Some.0)).kind)
  if ((*(*lv("L0", "v0")@Some.0)).parent is Some)
  loop L0 | v0 from new "core::option::Option" Some{0: ref(P($0), <'.path', '@Some', '.0'>)}
  then v0 := new "core::option::Option" Some{0: rv((*(*lv("L0", "v0")@Some.0)).parent@Some.0)}
pass L0
  if (lv("L0", "v0") is Some)
  if not ($1 === (*(*lv("L0", "v0")@Some.0)).kind)
  if not ((*(*lv("L0", "v0")@Some.0)).parent is Some)
  loop L0 | v0 from new "core::option::Option" Some{0: ref(P($0), <'.path', '@Some', '.0'>)}
  then v0 := new "core::option::Option" None{}
case
  if ((*$0).path is Some)
  if not (lv("L0", "v0") is Some)
  loop L0 | v0 from new "core::option::Option" Some{0: ref(P($0), <'.path', '@Some', '.0'>)}
  ret 0
case
  if not ((*$0).path is Some)
  ret 0

fn oak_pretty_print::formatter::FormatContext::new
case
  ret new "oak_pretty_print::formatter::FormatContext"{config: box($0), comment_processor: box(new "oak_pretty_print::comment::CommentProcessor"{collector: new "oak_pretty_print::comment::CommentCollector"{comments: vnew()}, preserve_comments: $0.format_comments, format_comments: $0.format_comments}), source: new "core::option::Option" None{}, depth: 0, path: new "core::option::Option" None{}}

fn oak_pretty_print::formatter::FormatContext::parent_kind
case
  if ((*$0).path is Some)
  if ((*(*$0).path@Some.0).parent is Some)
  ret new "core::option::Option" Some{0: (*(*(*$0).path@Some.0).parent@Some.0).kind}
case
  if ((*$0).path is Some)
  if not ((*(*$0).path@Some.0).parent is Some)
  ret new "core::option::Option" None{}
case
  if not ((*$0).path is Some)
  ret new "core::option::Option" None{}

fn oak_pretty_print::formatter::FormatOutput::new
case
  ret new "oak_pretty_print::formatter::FormatOutput"{content: $0, changed: $1}

fn oak_pretty_print::formatter::Formatter::add_rule
  let %1 = call "[T]::sort_by"(rv(vpush((*$0).rules.rules, $1)), clo('oak_pretty_print::rules::RuleSet::add_rule::{closure#0}', <>))
  let %2 = call "oak_pretty_print::rules::FormatRule::conflicts_with"($1, (*$0).rules.rules[n("C0")])
  let %3 = call "oak_pretty_print::rules::FormatRule::conflicts_with"((*$0).rules.rules[n("C0")], $1)
  let %4 = call "oak_pretty_print::rules::FormatRule::name"((*$0).rules.rules[n("C0")])
  let %5 = new "core::result::Result" Err{0: new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" FormatError{message: call "into"("alloc::string::String", cat(<"Rule conflict between '", %4, "' and '", call "oak_pretty_print::rules::FormatRule::name"($1), "'">))})}}
case
  if (len((*$0).rules.rules) < n("C0") + 1)
  loop C0
  do %1
  set $0 := ((*$0) with {rules: ((*$0).rules with {rules: post(0, %1)})})
  ret new "core::result::Result" Ok{0: tup{}}
pass C0
  if not (len((*$0).rules.rules) < n("C0") + 1)
  if not true(%2)
  if not true(%3)
  loop C0
  do %2
  do %3
case
  if not (len((*$0).rules.rules) < n("C0") + 1)
  if not true(%2)
  if true(%3)
  loop C0
  do %2
  do %3
  do %4
  do call "oak_pretty_print::rules::FormatRule::name"($1)
  ret %5
case
  if not (len((*$0).rules.rules) < n("C0") + 1)
  if true(%2)
  loop C0
  do %2
  do %4
  do call "oak_pretty_print::rules::FormatRule::name"($1)
  ret %5

fn oak_pretty_print::rules::RuleSet::add_rule::{closure#0}  [private]
  takes &alloc::boxed::Box<dyn oak_pretty_print::rules::FormatRule<L>>; &alloc::boxed::Box<dyn oak_pretty_print::rules::FormatRule<L>>
case
  do call "oak_pretty_print::rules::FormatRule::priority"((*$2))
  do call "oak_pretty_print::rules::FormatRule::priority"((*$1))
  ret cmp3(call "oak_pretty_print::rules::FormatRule::priority"((*$2)), call "oak_pretty_print::rules::FormatRule::priority"((*$1)))

fn oak_pretty_print::formatter::Formatter::format
  given oak_pretty_print::document::Document::render
  given oak_pretty_print::document::printer::Printer::render
  given oak_pretty_print::formatter::FormatOutput::new
  given oak_pretty_print::formatter::Formatter::format_node
  let %1 = ((*$0).context with {source: new "core::option::Option" Some{0: call "into"("alloc::rcs::arc::Arc<str>", $2)}})
  let %2 = call "oak_pretty_print::formatter::Formatter::format_node"(rv(((*$0) with {context: %1})), $1, rv(%1), $2)
  let %3 = call "oak_pretty_print::document::Document::render"(rv(%2@Ok.0), new "oak_pretty_print::config::FormatConfig"{indent_style: (*(*$0).context.config).indent_style, indent_text: (*(*$0).context.config).indent_text, line_ending: (*(*$0).context.config).line_ending, max_width: (*(*$0).context.config).max_width, insert_final_newline: (*(*$0).context.config).insert_final_newline, trim_trailing_whitespace: (*(*$0).context.config).trim_trailing_whitespace, preserve_blank_lines: (*(*$0).context.config).preserve_blank_lines, max_blank_lines: (*(*$0).context.config).max_blank_lines, format_comments: (*(*$0).context.config).format_comments, format_strings: (*(*$0).context.config).format_strings, indent_size: (*(*$0).context.config).indent_size})
  let %4 = call "oak_pretty_print::formatter::FormatOutput::new"(%3, !($2 === %3))
case
  if (%2 is Err)
  do %2
  set $0 := ((*$0) with {context: %1})
  ret new "core::result::Result" Err{0: %2@Err.0}
case
  if not (%2 is Err)
  do %2
  do %3
  do %4
  set $0 := ((*$0) with {context: %1})
  ret new "core::result::Result" Ok{0: %4}

fn oak_pretty_print::formatter::Formatter::format_node  [private]
  takes &oak_pretty_print::formatter::Formatter<L>; &oak_core::tree::red_tree::RedNode<, L>; &oak_pretty_print::formatter::FormatContext<L>; &str
  given oak_pretty_print::rules::RuleSet::apply_node_rules
  given oak_pretty_print::rules::RuleSet::apply_token_rules
  let %1 = rv(new "oak_pretty_print::formatter::FormatContext"{config: (*$2).config, comment_processor: (*$2).comment_processor, source: (*$2).source, depth: ((*$2).depth + 1), path: new "core::option::Option" Some{0: box(new "oak_pretty_print::formatter::PathNode"{kind: (*(*$1).green).kind, parent: (*$2).path})}})
  let %2 = call "oak_pretty_print::rules::RuleSet::apply_node_rules"(rv((*$0).rules), $1, %1, $3, rv(clo('oak_pretty_print::formatter::Formatter::format_node::{closure#0}', <$0, %1, $3>)))
  let %3 = sum(j0, 0, n("L0"), case{((*(*(*$1).green).children)[?j0] is Leaf) => (*(*(*$1).green).children)[?j0]@Leaf.0.length; ((*(*(*$1).green).children)[?j0] is Leaf) => (*(*(*$1).green).children)[?j0]@Leaf.0.length; !((*(*(*$1).green).children)[?j0] is Leaf) => (*(*(*(*$1).green).children)[?j0]@Node.0).text_len})
  let %4 = call "oak_pretty_print::formatter::Formatter::format_node"($0, rv(new "oak_core::tree::red_tree::RedNode"{green: (*(*(*$1).green).children)[n("L0")]@Node.0, offset: (%3 + (*$1).offset)}), %1, $3)
  let %5 = (%3 + (*$1).offset + (*(*(*$1).green).children)[n("L0")]@Leaf.0.length)
  let %6 = call "oak_pretty_print::rules::RuleSet::apply_token_rules"(rv((*$0).rules), rv(new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*(*$1).green).children)[n("L0")]@Leaf.0.kind, span: new "range"{start: (%3 + (*$1).offset), end: %5}}), %1, $3)
case
  if (%2 is Err)
  do %2
  ret new "core::result::Result" Err{0: %2@Err.0}
case
  if not (%2 is Err)
  if (%2@Ok.0 is Some)
  do %2
  ret new "core::result::Result" Ok{0: %2@Ok.0@Some.0}
case
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if not (n("L0") < len((*(*(*$1).green).children)))
  loop L0 | v0 from vnew()
  do %2
  ret new "core::result::Result" Ok{0: new "oak_pretty_print::document::Document" Concat{0: lv("L0", "v0")}}
pass L0
  if (n("L0") < len((*(*(*$1).green).children)))
  if not ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if not (%4 is Err)
  loop L0 | v0 from vnew()
  do %4
  then v0 := vpush(lv("L0", "v0"), %4@Ok.0)
pass L0
  if (n("L0") < len((*(*(*$1).green).children)))
  if ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  loop L0 | v0 from vnew()
  do %6
  then v0 := vpush(lv("L0", "v0"), new "oak_pretty_print::document::Document" Text{0: rv(slice((*$3), (%3 + (*$1).offset), %5))})
pass L0
  if (n("L0") < len((*(*(*$1).green).children)))
  if ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  loop L0 | v0 from vnew()
  do %6
  then v0 := vpush(lv("L0", "v0"), %6@Ok.0@Some.0)
case
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if (n("L0") < len((*(*(*$1).green).children)))
  if ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if (%6 is Err)
  loop L0 | v0 from vnew()
  do %2
  do %6
  ret new "core::result::Result" Err{0: %6@Err.0}
case
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if (n("L0") < len((*(*(*$1).green).children)))
  if not ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if (%4 is Err)
  loop L0 | v0 from vnew()
  do %2
  do %4
  ret new "core::result::Result" Err{0: %4@Err.0}

fn oak_pretty_print::formatter::Formatter::format_node::{closure#0}  [private]
  takes &oak_core::tree::red_tree::RedNode<, L>
  given oak_pretty_print::formatter::Formatter::format_node
  given oak_pretty_print::rules::RuleSet::apply_token_rules
  let %1 = sum(j0, 0, n("L0"), case{((*(*(*$1).green).children)[?j0] is Leaf) => (*(*(*$1).green).children)[?j0]@Leaf.0.length; ((*(*(*$1).green).children)[?j0] is Leaf) => (*(*(*$1).green).children)[?j0]@Leaf.0.length; !((*(*(*$1).green).children)[?j0] is Leaf) => (*(*(*(*$1).green).children)[?j0]@Node.0).text_len})
  let %2 = call "oak_pretty_print::formatter::Formatter::format_node"((*$0).0, rv(new "oak_core::tree::red_tree::RedNode"{green: (*(*(*$1).green).children)[n("L0")]@Node.0, offset: (%1 + (*$1).offset)}), (*$0).1, (*$0).2)
  let %3 = (%1 + (*$1).offset + (*(*(*$1).green).children)[n("L0")]@Leaf.0.length)
  let %4 = call "oak_pretty_print::rules::RuleSet::apply_token_rules"(rv((*(*$0).0).rules), rv(new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*(*$1).green).children)[n("L0")]@Leaf.0.kind, span: new "range"{start: (%1 + (*$1).offset), end: %3}}), (*$0).1, (*$0).2)
case
  if not (n("L0") < len((*(*(*$1).green).children)))
  loop L0 | v0 from vnew()
  ret new "core::result::Result" Ok{0: new "oak_pretty_print::document::Document" Concat{0: lv("L0", "v0")}}
pass L0
  if (n("L0") < len((*(*(*$1).green).children)))
  if not ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if not (%2 is Err)
  loop L0 | v0 from vnew()
  do %2
  then v0 := vpush(lv("L0", "v0"), %2@Ok.0)
pass L0
  if (n("L0") < len((*(*(*$1).green).children)))
  if ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if not (%4 is Err)
  if not (%4@Ok.0 is Some)
  loop L0 | v0 from vnew()
  do %4
  then v0 := vpush(lv("L0", "v0"), new "oak_pretty_print::document::Document" Text{0: rv(slice((*(*$0).2), (%1 + (*$1).offset), %3))})
pass L0
  if (n("L0") < len((*(*(*$1).green).children)))
  if ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if not (%4 is Err)
  if (%4@Ok.0 is Some)
  loop L0 | v0 from vnew()
  do %4
  then v0 := vpush(lv("L0", "v0"), %4@Ok.0@Some.0)
case
  if (n("L0") < len((*(*(*$1).green).children)))
  if not ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if (%2 is Err)
  loop L0 | v0 from vnew()
  do %2
  ret new "core::result::Result" Err{0: %2@Err.0}
case
  if (n("L0") < len((*(*(*$1).green).children)))
  if ((*(*(*$1).green).children)[n("L0")] is Leaf)
  if (%4 is Err)
  loop L0 | v0 from vnew()
  do %4
  ret new "core::result::Result" Err{0: %4@Err.0}

fn oak_pretty_print::formatter::Formatter::format_token  [private]
  takes &oak_pretty_print::formatter::Formatter<L>; &oak_core::tree::red_tree::RedLeaf<L>; &oak_pretty_print::formatter::FormatContext<L>; &str
  given oak_pretty_print::rules::RuleSet::apply_token_rules
  let %1 = call "oak_pretty_print::rules::RuleSet::apply_token_rules"(rv((*$0).rules), $1, $2, $3)
case
  if (%1 is Err)
  do %1
  ret new "core::result::Result" Err{0: %1@Err.0}
case
  if not (%1 is Err)
  if (%1@Ok.0 is Some)
  do %1
  ret new "core::result::Result" Ok{0: %1@Ok.0@Some.0}
case
  if not (%1 is Err)
  if not (%1@Ok.0 is Some)
  do %1
  ret new "core::result::Result" Ok{0: new "oak_pretty_print::document::Document" Text{0: rv(slice((*$3), (*$1).span.start, (*$1).span.end))}}

fn oak_pretty_print::formatter::Formatter::new
  let %1 = vpush(vpush(vpush(vnew(), box(new "oak_pretty_print::builtin_rules::create_builtin_rules::indent"{0: new "core::marker::PhantomData"{}})), box(new "oak_pretty_print::builtin_rules::create_builtin_rules::statement_newline"{0: new "core::marker::PhantomData"{}})), box(new "oak_pretty_print::builtin_rules::create_builtin_rules::comma_spacing"{0: new "core::marker::PhantomData"{}}))[n("L0")]
  let %2 = call "oak_pretty_print::rules::FormatRule::conflicts_with"(%1, lv("L0", "v0")[n("C0")])
  let %3 = call "oak_pretty_print::rules::FormatRule::conflicts_with"(lv("L0", "v0")[n("C0")], %1)
  let %4 = call "[T]::sort_by"(rv(vpush(lv("L0", "v0"), %1)), clo('oak_pretty_print::rules::RuleSet::add_rule::{closure#0}', <>))
case
  if not (n("L0") < 3)
  loop L0 | v0 from vnew()
  ret new "oak_pretty_print::formatter::Formatter"{rules: new "oak_pretty_print::rules::RuleSet"{rules: lv("L0", "v0")}, context: new "oak_pretty_print::formatter::FormatContext"{config: box($0), comment_processor: box(new "oak_pretty_print::comment::CommentProcessor"{collector: new "oak_pretty_print::comment::CommentCollector"{comments: vnew()}, preserve_comments: $0.format_comments, format_comments: $0.format_comments}), source: new "core::option::Option" None{}, depth: 0, path: new "core::option::Option" None{}}}
pass L0
  if (n("L0") < 3)
  if (n("C0") < len(lv("L0", "v0")))
  if true(%2)
  loop L0 | v0 from vnew()
  loop C0
  do %2
  do call "oak_pretty_print::rules::FormatRule::name"(lv("L0", "v0")[n("C0")])
  do call "oak_pretty_print::rules::FormatRule::name"(%1)
  then v0 := lv("L0", "v0")
pass C0
  if (n("C0") < len(lv("L0", "v0")))
  if not true(%2)
  if not true(%3)
  loop L0 | v0 from vnew()
  loop C0
  do %2
  do %3
pass L0
  if (n("L0") < 3)
  if not (n("C0") < len(lv("L0", "v0")))
  loop L0 | v0 from vnew()
  loop C0
  do %4
  then v0 := post(0, %4)
pass L0
  if (n("L0") < 3)
  if (n("C0") < len(lv("L0", "v0")))
  if not true(%2)
  if true(%3)
  loop L0 | v0 from vnew()
  loop C0
  do %2
  do %3
  do call "oak_pretty_print::rules::FormatRule::name"(lv("L0", "v0")[n("C0")])
  do call "oak_pretty_print::rules::FormatRule::name"(%1)
  then v0 := lv("L0", "v0")

fn oak_pretty_print::rules::FormatRule::applies_to_node
case
  ret 0

fn oak_pretty_print::rules::FormatRule::applies_to_token
case
  ret 0

fn oak_pretty_print::rules::FormatRule::conflicts_with
case
  ret 0

fn oak_pretty_print::rules::FormatRule::priority
case
  ret 0

fn oak_pretty_print::rules::RuleSet::add_rule
  let %1 = call "[T]::sort_by"(rv(vpush((*$0).rules, $1)), clo('oak_pretty_print::rules::RuleSet::add_rule::{closure#0}', <>))
  let %2 = call "oak_pretty_print::rules::FormatRule::conflicts_with"($1, (*$0).rules[n("C0")])
  let %3 = call "oak_pretty_print::rules::FormatRule::conflicts_with"((*$0).rules[n("C0")], $1)
  let %4 = call "oak_pretty_print::rules::FormatRule::name"((*$0).rules[n("C0")])
  let %5 = new "core::result::Result" Err{0: new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" FormatError{message: call "into"("alloc::string::String", cat(<"Rule conflict between '", %4, "' and '", call "oak_pretty_print::rules::FormatRule::name"($1), "'">))})}}
case
  if not (n("C0") < len((*$0).rules))
  loop C0
  do %1
  set $0 := ((*$0) with {rules: post(0, %1)})
  ret new "core::result::Result" Ok{0: tup{}}
pass C0
  if (n("C0") < len((*$0).rules))
  if not true(%2)
  if not true(%3)
  loop C0
  do %2
  do %3
case
  if (n("C0") < len((*$0).rules))
  if true(%2)
  loop C0
  do %2
  do %4
  do call "oak_pretty_print::rules::FormatRule::name"($1)
  ret %5
case
  if (n("C0") < len((*$0).rules))
  if not true(%2)
  if true(%3)
  loop C0
  do %2
  do %3
  do %4
  do call "oak_pretty_print::rules::FormatRule::name"($1)
  ret %5

fn oak_pretty_print::rules::RuleSet::add_rules
  let %1 = call "[T]::sort_by"(rv(vpush(lv("L0", "v0"), $1[n("L0")])), clo('oak_pretty_print::rules::RuleSet::add_rule::{closure#0}', <>))
  let %2 = call "oak_pretty_print::rules::FormatRule::conflicts_with"($1[n("L0")], lv("L0", "v0")[n("C0")])
  let %3 = call "oak_pretty_print::rules::FormatRule::conflicts_with"(lv("L0", "v0")[n("C0")], $1[n("L0")])
  let %4 = new "core::result::Result" Err{0: new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" FormatError{message: call "into"("alloc::string::String", cat(<"Rule conflict between '", call "oak_pretty_print::rules::FormatRule::name"(lv("L0", "v0")[n("C0")]), "' and '", call "oak_pretty_print::rules::FormatRule::name"($1[n("L0")]), "'">))})}}
case
  if not (n("L0") < len($1))
  loop L0 | v0 from (*$0).rules
  set $0 := ((*$0) with {rules: lv("L0", "v0")})
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len($1))
  if not (n("C0") < len(lv("L0", "v0")))
  loop L0 | v0 from (*$0).rules
  loop C0
  do %1
  then v0 := post(0, %1)
pass C0
  if (n("C0") < len(lv("L0", "v0")))
  if not true(%2)
  if not true(%3)
  loop L0 | v0 from (*$0).rules
  loop C0
  do %2
  do %3
case
  if (n("L0") < len($1))
  if (n("C0") < len(lv("L0", "v0")))
  if true(%2)
  loop L0 | v0 from (*$0).rules
  loop C0
  do %2
  do call "oak_pretty_print::rules::FormatRule::name"(lv("L0", "v0")[n("C0")])
  do call "oak_pretty_print::rules::FormatRule::name"($1[n("L0")])
  set $0 := ((*$0) with {rules: lv("L0", "v0")})
  ret %4
case
  if (n("L0") < len($1))
  if (n("C0") < len(lv("L0", "v0")))
  if not true(%2)
  if true(%3)
  loop L0 | v0 from (*$0).rules
  loop C0
  do %2
  do %3
  do call "oak_pretty_print::rules::FormatRule::name"(lv("L0", "v0")[n("C0")])
  do call "oak_pretty_print::rules::FormatRule::name"($1[n("L0")])
  set $0 := ((*$0) with {rules: lv("L0", "v0")})
  ret %4

fn oak_pretty_print::rules::RuleSet::applicable_rules_for_node
case
  ret new "it.map"{inner: new "it.filter"{inner: new "it.slice"{seq: rv((*$0).rules), pos: 0, end: len((*$0).rules)}, f: clo('oak_pretty_print::rules::RuleSet::applicable_rules_for_node::{closure#0}', <$1>)}, f: clo('oak_pretty_print::rules::RuleSet::applicable_rules_for_node::{closure#1}', <>)}

fn oak_pretty_print::rules::RuleSet::applicable_rules_for_node::{closure#0}  [private]
  takes &&alloc::boxed::Box<dyn oak_pretty_print::rules::FormatRule<L>>
  let %1 = call "oak_pretty_print::rules::FormatRule::applies_to_node"((*(*$1)), (*$0).0)
case
  do %1
  ret %1

fn oak_pretty_print::rules::RuleSet::applicable_rules_for_node::{closure#1}  [private]
  takes &alloc::boxed::Box<dyn oak_pretty_print::rules::FormatRule<L>>
case
  ret (*$1)

fn oak_pretty_print::rules::RuleSet::applicable_rules_for_token
case
  ret new "it.map"{inner: new "it.filter"{inner: new "it.slice"{seq: rv((*$0).rules), pos: 0, end: len((*$0).rules)}, f: clo('oak_pretty_print::rules::RuleSet::applicable_rules_for_token::{closure#0}', <$1>)}, f: clo('oak_pretty_print::rules::RuleSet::applicable_rules_for_token::{closure#1}', <>)}

fn oak_pretty_print::rules::RuleSet::applicable_rules_for_token::{closure#0}  [private]
  takes &&alloc::boxed::Box<dyn oak_pretty_print::rules::FormatRule<L>>
  let %1 = call "oak_pretty_print::rules::FormatRule::applies_to_token"((*(*$1)), (*$0).0)
case
  do %1
  ret %1

fn oak_pretty_print::rules::RuleSet::applicable_rules_for_token::{closure#1}  [private]
  takes &alloc::boxed::Box<dyn oak_pretty_print::rules::FormatRule<L>>
case
  ret (*$1)

fn oak_pretty_print::rules::RuleSet::apply_node_rules
  let %1 = call "oak_pretty_print::rules::FormatRule::apply_node"(call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))@Some.0, $1, $2, $3, $4)
  let %2 = new "it.map"{inner: new "it.filter"{inner: new "it.slice"{seq: ref(P($0), <'.rules'>), pos: 0, end: len((*$0).rules)}, f: clo('oak_pretty_print::rules::RuleSet::applicable_rules_for_node::{closure#0}', <$1>)}, f: clo('oak_pretty_print::rules::RuleSet::applicable_rules_for_node::{closure#1}', <>)}
case
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if (%1 is Err)
  loop L0 | v0 from %2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %1
  ret new "core::result::Result" Err{0: %1@Err.0}
pass L0
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if not (%1@Ok.0 is Some)
  loop L0 | v0 from %2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %1
  then v0 := post(0, call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))))
case
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if (%1@Ok.0 is Some)
  loop L0 | v0 from %2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %1
  ret new "core::result::Result" Ok{0: new "core::option::Option" Some{0: %1@Ok.0@Some.0}}
case
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  loop L0 | v0 from %2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  ret new "core::result::Result" Ok{0: new "core::option::Option" None{}}

fn oak_pretty_print::rules::RuleSet::apply_token_rules
  let %1 = call "oak_pretty_print::rules::FormatRule::apply_token"(call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))@Some.0, $1, $2, $3)
  let %2 = new "it.map"{inner: new "it.filter"{inner: new "it.slice"{seq: ref(P($0), <'.rules'>), pos: 0, end: len((*$0).rules)}, f: clo('oak_pretty_print::rules::RuleSet::applicable_rules_for_token::{closure#0}', <$1>)}, f: clo('oak_pretty_print::rules::RuleSet::applicable_rules_for_token::{closure#1}', <>)}
case
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if (%1 is Err)
  loop L0 | v0 from %2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %1
  ret new "core::result::Result" Err{0: %1@Err.0}
pass L0
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if not (%1@Ok.0 is Some)
  loop L0 | v0 from %2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %1
  then v0 := post(0, call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))))
case
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if (%1@Ok.0 is Some)
  loop L0 | v0 from %2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %1
  ret new "core::result::Result" Ok{0: new "core::option::Option" Some{0: %1@Ok.0@Some.0}}
case
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  loop L0 | v0 from %2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  ret new "core::result::Result" Ok{0: new "core::option::Option" None{}}

fn oak_pretty_print::rules::RuleSet::new
case
  ret new "oak_pretty_print::rules::RuleSet"{rules: vnew()}
