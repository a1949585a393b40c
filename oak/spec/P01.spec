fn <oak_core::parser::state::TokenSource as core::clone::Clone>::clone
case
  ret new "oak_core::parser::state::TokenSource"{tokens: (*$0).tokens, index: (*$0).index}

fn oak_core::lexer::Token::length
case
  ret ((*$0).span.end - (*$0).span.start)

fn oak_core::parser::state::ParserState::advance
  given oak_core::parser::state::ParserState::skip_trivia
  let %1 = call "oak_core::parser::state::ParserState::skip_trivia"(rv(((*$0) with {tokens: ((*$0).tokens with {index: ((*$0).tokens.index + 1)})})))
case
  do %1
  set $0 := post(0, %1)
  ret %1

fn oak_core::parser::state::ParserState::advance_until
  given oak_core::parser::state::ParserState::advance
  let %1 = (len((*lv("L0", "v0").tokens.tokens)) < lv("L0", "v0").tokens.index + 1)
  let %2 = ($1 === (*lv("L0", "v0").tokens.tokens)[lv("L0", "v0").tokens.index].kind)
case
  if not %1
  if %2
  loop L0 | v0 from (*$0)
  set $0 := lv("L0", "v0")
  ret tup{}
pass L0
  if not %1
  if not %2
  loop L0 | v0 from (*$0)
  do call "oak_core::parser::state::ParserState::advance"(rv(lv("L0", "v0")))
  then v0 := post(0, call "oak_core::parser::state::ParserState::advance"(rv(lv("L0", "v0"))))
case
  if %1
  loop L0 | v0 from (*$0)
  set $0 := lv("L0", "v0")
  ret tup{}

fn oak_core::parser::state::ParserState::advance_until_any
  given oak_core::parser::state::ParserState::advance
  let %1 = (len((*lv("L0", "v0").tokens.tokens)) < lv("L0", "v0").tokens.index + 1)
case
  if not %1
  if not (len((*$1)) < n("C0") + 1)
  if ((*$1)[n("C0")] === (*lv("L0", "v0").tokens.tokens)[lv("L0", "v0").tokens.index].kind)
  loop L0 | v0 from (*$0)
  loop C0
  set $0 := lv("L0", "v0")
  ret tup{}
pass L0
  if not %1
  if (len((*$1)) < n("C0") + 1)
  loop L0 | v0 from (*$0)
  loop C0
  do call "oak_core::parser::state::ParserState::advance"(rv(lv("L0", "v0")))
  then v0 := post(0, call "oak_core::parser::state::ParserState::advance"(rv(lv("L0", "v0"))))
case
  if %1
  loop L0 | v0 from (*$0)
  set $0 := lv("L0", "v0")
  ret tup{}

fn oak_core::parser::state::ParserState::arena
case
  ret (*$0).sink.arena

fn oak_core::parser::state::ParserState::at
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret ($1 === (*(*$0).tokens.tokens)[(*$0).tokens.index].kind)
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret 0

fn oak_core::parser::state::ParserState::bump
  given oak_core::parser::state::ParserState::advance
  let %1 = call "oak_core::parser::state::ParserState::advance"(rv(((*$0) with {sink: ((*$0).sink with {children: vpush((*$0).sink.children, new "oak_core::tree::green_tree::GreenTree" Leaf{0: new "oak_core::tree::green_tree::GreenLeaf"{kind: (*(*$0).tokens.tokens)[(*$0).tokens.index].kind, length: ((*(*$0).tokens.tokens)[(*$0).tokens.index].span.end - (*(*$0).tokens.tokens)[(*$0).tokens.index].span.start), metadata: new "core::option::Option" None{}}})})})))
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do %1
  set $0 := post(0, %1)
  ret %1
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret tup{}

fn oak_core::parser::state::ParserState::current
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" Some{0: rv((*(*$0).tokens.tokens)[(*$0).tokens.index])}
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::ParserState::current_offset
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret (*(*$0).tokens.tokens)[(*$0).tokens.index].span.start
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  ret call "oak_core::source::Source::length"((*$0).source)

fn oak_core::parser::state::ParserState::eat
  given oak_core::parser::state::ParserState::bump
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  if ($1 === (*(*$0).tokens.tokens)[(*$0).tokens.index].kind)
  do call "oak_core::parser::state::ParserState::bump"($0)
  set $0 := post(0, call "oak_core::parser::state::ParserState::bump"($0))
  ret 1
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  if not ($1 === (*(*$0).tokens.tokens)[(*$0).tokens.index].kind)
  ret 0
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret 0

fn oak_core::parser::state::ParserState::expect
  given oak_core::parser::state::ParserState::eat
  let %1 = post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)).tokens
  let %2 = post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)).source
  let %3 = post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)).errors
  let %4 = new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedToken{expected: call "into"("alloc::string::String", display('?', $1)), offset: (*%1.tokens)[%1.index].span.start, source_id: call "oak_core::source::Source::source_id"(%2)})}
  let %5 = new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedToken{expected: call "into"("alloc::string::String", display('?', $1)), offset: call "oak_core::source::Source::length"(%2), source_id: call "oak_core::source::Source::source_id"(%2)})}
case
  if true(call "oak_core::parser::state::ParserState::eat"($0, $1))
  do call "oak_core::parser::state::ParserState::eat"($0, $1)
  set $0 := post(0, call "oak_core::parser::state::ParserState::eat"($0, $1))
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not true(call "oak_core::parser::state::ParserState::eat"($0, $1))
  if (%1.index < len((*%1.tokens)))
  do call "oak_core::parser::state::ParserState::eat"($0, $1)
  do call "oak_core::source::Source::source_id"(%2)
  set $0 := (post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)) with {errors: vpush(%3, %4)})
  ret new "core::result::Result" Err{0: %4}
case
  if not true(call "oak_core::parser::state::ParserState::eat"($0, $1))
  if not (%1.index < len((*%1.tokens)))
  do call "oak_core::parser::state::ParserState::eat"($0, $1)
  do call "oak_core::source::Source::length"(%2)
  do call "oak_core::source::Source::source_id"(%2)
  set $0 := (post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)) with {errors: vpush(%3, %5)})
  ret new "core::result::Result" Err{0: %5}

fn oak_core::parser::state::ParserState::nested
case
  ret new "oak_core::parser::state::ParserState"{tokens: new "oak_core::parser::state::TokenSource"{tokens: (*$0).tokens.tokens, index: (*$0).tokens.index}, sink: new "oak_core::parser::state::TreeSink"{arena: (*$0).sink.arena, children: vnew()}, incremental: new "core::option::Option" None{}, errors: vnew(), source: (*$0).source}

fn oak_core::parser::state::ParserState::new
  given oak_core::parser::state::ParserState::skip_trivia
  let %1 = call "oak_core::parser::state::ParserState::skip_trivia"(rv(new "oak_core::parser::state::ParserState"{tokens: new "oak_core::parser::state::TokenSource"{tokens: vnew(), index: 0}, sink: new "oak_core::parser::state::TreeSink"{arena: $0, children: vnew()}, incremental: new "core::option::Option" None{}, errors: vcat(vpush(vnew(), $1.result@Err.0), $1.diagnostics), source: $2}))
  let %2 = call "oak_core::parser::state::ParserState::skip_trivia"(rv(new "oak_core::parser::state::ParserState"{tokens: new "oak_core::parser::state::TokenSource"{tokens: $1.result@Ok.0, index: 0}, sink: new "oak_core::parser::state::TreeSink"{arena: $0, children: vnew()}, incremental: new "core::option::Option" None{}, errors: $1.diagnostics, source: $2}))
case
  if ($1.result is Err)
  do %1
  ret post(0, %1)
case
  if not ($1.result is Err)
  do %2
  ret post(0, %2)

fn oak_core::parser::state::ParserState::not_at
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret !($1 === (*(*$0).tokens.tokens)[(*$0).tokens.index].kind)
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret 1

fn oak_core::parser::state::ParserState::not_at_end
case
  ret ((*$0).tokens.index < len((*(*$0).tokens.tokens)))

fn oak_core::parser::state::ParserState::peek_at
case
  if ($1 + (*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" Some{0: rv((*(*$0).tokens.tokens)[($1 + (*$0).tokens.index)])}
case
  if not ($1 + (*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::ParserState::peek_kind
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" Some{0: (*(*$0).tokens.tokens)[(*$0).tokens.index].kind}
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::ParserState::peek_kind_at
case
  if ($1 + (*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" Some{0: (*(*$0).tokens.tokens)[($1 + (*$0).tokens.index)].kind}
case
  if not ($1 + (*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::ParserState::peek_non_trivia_at
  let %1 = call "oak_core::language::TokenType::is_ignored"(rv((*(*$0).tokens.tokens)[((*$0).tokens.index + n("C0"))].kind))
  let %2 = true(call "oak_core::language::TokenType::is_ignored"(rv((*(*$0).tokens.tokens)[((*$0).tokens.index + ?j0)].kind)))
case
  if ((*$0).tokens.index + n("C0") < len((*(*$0).tokens.tokens)))
  if not true(%1)
  if ($1 + sum(j0, 0, n("C0"), case{%2 => 0; !%2 => -1}) == 0)
  loop C0
  do %1
  ret new "core::option::Option" Some{0: rv((*(*$0).tokens.tokens)[((*$0).tokens.index + n("C0"))])}
pass C0
  if ((*$0).tokens.index + n("C0") < len((*(*$0).tokens.tokens)))
  if true(%1)
  loop C0
  do %1
pass C0
  if ((*$0).tokens.index + n("C0") < len((*(*$0).tokens.tokens)))
  if not true(%1)
  if not ($1 + sum(j0, 0, n("C0"), case{%2 => 0; !%2 => -1}) == 0)
  loop C0
  do %1
case
  if not ((*$0).tokens.index + n("C0") < len((*(*$0).tokens.tokens)))
  loop C0
  ret new "core::option::Option" None{}

fn oak_core::parser::state::ParserState::peek_non_trivia_kind_at
  let %1 = call "oak_core::language::TokenType::is_ignored"(rv((*(*$0).tokens.tokens)[((*$0).tokens.index + n("C0"))].kind))
  let %2 = true(call "oak_core::language::TokenType::is_ignored"(rv((*(*$0).tokens.tokens)[((*$0).tokens.index + ?j0)].kind)))
case
  if ((*$0).tokens.index + n("C0") < len((*(*$0).tokens.tokens)))
  if not true(%1)
  if ($1 + sum(j0, 0, n("C0"), case{%2 => 0; !%2 => -1}) == 0)
  loop C0
  do %1
  ret new "core::option::Option" Some{0: (*(*$0).tokens.tokens)[((*$0).tokens.index + n("C0"))].kind}
pass C0
  if ((*$0).tokens.index + n("C0") < len((*(*$0).tokens.tokens)))
  if true(%1)
  loop C0
  do %1
pass C0
  if ((*$0).tokens.index + n("C0") < len((*(*$0).tokens.tokens)))
  if not true(%1)
  if not ($1 + sum(j0, 0, n("C0"), case{%2 => 0; !%2 => -1}) == 0)
  loop C0
  do %1
case
  if not ((*$0).tokens.index + n("C0") < len((*(*$0).tokens.tokens)))
  loop C0
  ret new "core::option::Option" None{}

fn oak_core::parser::state::ParserState::peek_text
  let %1 = call "oak_core::source::Source::get_text_in"((*$0).source, (*(*$0).tokens.tokens)[(*$0).tokens.index].span)
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do %1
  ret new "core::option::Option" Some{0: %1}
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::ParserState::record_expected
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedToken{expected: call "into"("alloc::string::String", $1), offset: (*(*$0).tokens.tokens)[(*$0).tokens.index].span.start, source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedToken{expected: call "into"("alloc::string::String", $1), offset: call "oak_core::source::Source::length"((*$0).source), source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}

fn oak_core::parser::state::ParserState::record_expected_name
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedName{name_kind: call "into"("alloc::string::String", $1), offset: (*(*$0).tokens.tokens)[(*$0).tokens.index].span.start, source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedName{name_kind: call "into"("alloc::string::String", $1), offset: call "oak_core::source::Source::length"((*$0).source), source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}

fn oak_core::parser::state::ParserState::record_trailing_comma_not_allowed
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" TrailingCommaNotAllowed{offset: (*(*$0).tokens.tokens)[(*$0).tokens.index].span.start, source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" TrailingCommaNotAllowed{offset: call "oak_core::source::Source::length"((*$0).source), source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}

fn oak_core::parser::state::ParserState::record_unexpected_eof
case
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnexpectedEof{offset: call "oak_core::source::Source::length"((*$0).source), source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}

fn oak_core::parser::state::ParserState::record_unexpected_token
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnexpectedToken{token: call "into"("alloc::string::String", $1), offset: (*(*$0).tokens.tokens)[(*$0).tokens.index].span.start, source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnexpectedToken{token: call "into"("alloc::string::String", $1), offset: call "oak_core::source::Source::length"((*$0).source), source_id: call "oak_core::source::Source::source_id"((*$0).source)})})})
  ret tup{}

fn oak_core::parser::state::ParserState::skip_trivia
  let %1 = call "oak_core::language::TokenType::is_ignored"(rv((*(*$0).tokens.tokens)[((*$0).tokens.index + n("L0"))].kind))
case
  if ((*$0).tokens.index + n("L0") < len((*(*$0).tokens.tokens)))
  if not true(%1)
  loop L0 | v0 from (*$0).sink.children
  do %1
  set $0 := ((*$0) with {sink: ((*$0).sink with {children: lv("L0", "v0")}), tokens: ((*$0).tokens with {index: ((*$0).tokens.index + n("L0"))})})
  ret tup{}
pass L0
  if ((*$0).tokens.index + n("L0") < len((*(*$0).tokens.tokens)))
  if true(%1)
  loop L0 | v0 from (*$0).sink.children
  do %1
  then v0 := vpush(lv("L0", "v0"), new "oak_core::tree::green_tree::GreenTree" Leaf{0: new "oak_core::tree::green_tree::GreenLeaf"{kind: (*(*$0).tokens.tokens)[((*$0).tokens.index + n("L0"))].kind, length: ((*(*$0).tokens.tokens)[((*$0).tokens.index + n("L0"))].span.end - (*(*$0).tokens.tokens)[((*$0).tokens.index + n("L0"))].span.start), metadata: new "core::option::Option" None{}}})
case
  if not ((*$0).tokens.index + n("L0") < len((*(*$0).tokens.tokens)))
  loop L0 | v0 from (*$0).sink.children
  set $0 := ((*$0) with {sink: ((*$0).sink with {children: lv("L0", "v0")}), tokens: ((*$0).tokens with {index: len((*(*$0).tokens.tokens))})})
  ret tup{}

fn oak_core::parser::state::ParserState::source_id
case
  do call "oak_core::source::Source::source_id"((*$0).source)
  ret call "oak_core::source::Source::source_id"((*$0).source)

fn oak_core::parser::state::ParserState::syntax_error
  let %1 = new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" SyntaxError{message: call "into"("alloc::string::String", $1), offset: (*(*$0).tokens.tokens)[(*$0).tokens.index].span.start, source_id: call "oak_core::source::Source::source_id"((*$0).source)})}
  let %2 = new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" SyntaxError{message: call "into"("alloc::string::String", $1), offset: call "oak_core::source::Source::length"((*$0).source), source_id: call "oak_core::source::Source::source_id"((*$0).source)})}
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, %1)})
  ret %1
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, %2)})
  ret %2

fn oak_core::parser::state::ParserState::unexpected_eof
  let %1 = new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnexpectedEof{offset: call "oak_core::source::Source::length"((*$0).source), source_id: call "oak_core::source::Source::source_id"((*$0).source)})}
case
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::source_id"((*$0).source)
  set $0 := ((*$0) with {errors: vpush((*$0).errors, %1)})
  ret %1

fn oak_core::parser::state::TokenSource::advance
case
  set $0 := ((*$0) with {index: ((*$0).index + 1)})
  ret tup{}

fn oak_core::parser::state::TokenSource::current
case
  if ((*$0).index < len((*(*$0).tokens)))
  ret new "core::option::Option" Some{0: rv((*(*$0).tokens)[(*$0).index])}
case
  if not ((*$0).index < len((*(*$0).tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::TokenSource::index
case
  ret (*$0).index

fn oak_core::parser::state::TokenSource::is_end
case
  ret !((*$0).index < len((*(*$0).tokens)))

fn oak_core::parser::state::TokenSource::new
case
  ret new "oak_core::parser::state::TokenSource"{tokens: $0, index: 0}

fn oak_core::parser::state::TokenSource::peek_at
case
  if ($1 + (*$0).index < len((*(*$0).tokens)))
  ret new "core::option::Option" Some{0: rv((*(*$0).tokens)[($1 + (*$0).index)])}
case
  if not ($1 + (*$0).index < len((*(*$0).tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::TokenSource::set_index
case
  set $0 := ((*$0) with {index: $1})
  ret tup{}

fn oak_core::parser::state::TreeSink::push_leaf
case
  set $0 := ((*$0) with {children: vpush((*$0).children, new "oak_core::tree::green_tree::GreenTree" Leaf{0: new "oak_core::tree::green_tree::GreenLeaf"{kind: $1, length: $2, metadata: new "core::option::Option" None{}}})})
  ret tup{}

fn oak_core::parser::state::TreeSink::push_leaf_with_metadata
  let %1 = call "core::num::nonzero::NonZero::new"((len((*(*$0).arena).metadata.value) + 1))
case
  if not (%1 is Some)
  panics
case
  if (%1 is Some)
  do %1
  set $0 := ((*$0) with {children: vpush((*$0).children, new "oak_core::tree::green_tree::GreenTree" Leaf{0: new "oak_core::tree::green_tree::GreenLeaf"{kind: $1, length: $2, metadata: new "core::option::Option" Some{0: %1@Some.0}}})})
  set (*$0).arena := ((*(*$0).arena) with {metadata: ((*(*$0).arena).metadata with {value: vpush((*(*$0).arena).metadata.value, $3)})})
  ret tup{}
