fn <&mut C as oak_core::lexer::LexerCache<L>>::count_tokens
case
  do call "oak_core::lexer::LexerCache::count_tokens"((*$0))
  ret call "oak_core::lexer::LexerCache::count_tokens"((*$0))

fn <&mut C as oak_core::lexer::LexerCache<L>>::get_token
case
  do call "oak_core::lexer::LexerCache::get_token"((*$0), $1)
  ret call "oak_core::lexer::LexerCache::get_token"((*$0), $1)

fn <&mut C as oak_core::lexer::LexerCache<L>>::get_tokens
case
  do call "oak_core::lexer::LexerCache::get_tokens"((*$0))
  ret call "oak_core::lexer::LexerCache::get_tokens"((*$0))

fn <&mut C as oak_core::lexer::LexerCache<L>>::has_tokens
case
  do call "oak_core::lexer::LexerCache::has_tokens"((*$0))
  ret call "oak_core::lexer::LexerCache::has_tokens"((*$0))

fn <&mut C as oak_core::lexer::LexerCache<L>>::set_lex_output
case
  do call "oak_core::lexer::LexerCache::set_lex_output"((*$0), $1)
  ret call "oak_core::lexer::LexerCache::set_lex_output"((*$0), $1)

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::count_tokens
case
  if ((*$0).last_lex is Some)
  if ((*$0).last_lex@Some.0.result is Err)
  ret 0
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  ret len((*(*$0).last_lex@Some.0.result@Ok.0))
case
  if not ((*$0).last_lex is Some)
  ret 0

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::get_token
case
  if ((*$0).last_lex is Some)
  if ((*$0).last_lex@Some.0.result is Err)
  ret new "core::option::Option" None{}
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  if ($1 < len((*(*$0).last_lex@Some.0.result@Ok.0)))
  ret new "core::option::Option" Some{0: (*(*$0).last_lex@Some.0.result@Ok.0)[$1]}
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  if not ($1 < len((*(*$0).last_lex@Some.0.result@Ok.0)))
  ret new "core::option::Option" None{}
case
  if not ((*$0).last_lex is Some)
  ret new "core::option::Option" None{}

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::get_tokens
case
  if ((*$0).last_lex is Some)
  if ((*$0).last_lex@Some.0.result is Err)
  ret new "core::option::Option" None{}
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  ret new "core::option::Option" Some{0: (*$0).last_lex@Some.0.result@Ok.0}
case
  if not ((*$0).last_lex is Some)
  ret new "core::option::Option" None{}

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::has_tokens
case
  if ((*$0).last_lex is Some)
  if ((*$0).last_lex@Some.0.result is Err)
  ret 0
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  ret !(len((*(*$0).last_lex@Some.0.result@Ok.0)) == 0)
case
  if not ((*$0).last_lex is Some)
  ret 0

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::set_lex_output
case
  set $0 := ((*$0) with {last_lex: new "core::option::Option" Some{0: $1}})
  ret tup{}

fn oak_core::language::TokenType::is_comment
case
  do call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Comment{})
  ret call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Comment{})

fn oak_core::language::TokenType::is_end_of_stream
case
  ret ($0 === const('oak_core::language::TokenType::END_OF_STREAM', <'Self'>))

fn oak_core::language::TokenType::is_error
case
  do call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Error{})
  ret call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Error{})

fn oak_core::language::TokenType::is_ignored
case
  if true(call "oak_core::language::TokenType::is_whitespace"($0))
  do call "oak_core::language::TokenType::is_whitespace"($0)
  ret 1
case
  if not true(call "oak_core::language::TokenType::is_whitespace"($0))
  do call "oak_core::language::TokenType::is_whitespace"($0)
  do call "oak_core::language::TokenType::is_comment"($0)
  ret call "oak_core::language::TokenType::is_comment"($0)

fn oak_core::language::TokenType::is_role
case
  do call "oak_core::language::TokenType::role"($0)
  ret ($1 === call "oak_core::language::TokenType::role"($0))

fn oak_core::language::TokenType::is_universal
  let %1 = call "core::intrinsics::discriminant_value"(rv(call "oak_core::language::TokenRole::universal"(rv(call "oak_core::language::TokenType::role"($0)))))
case
  do call "oak_core::language::TokenType::role"($0)
  do call "oak_core::language::TokenRole::universal"(rv(call "oak_core::language::TokenType::role"($0)))
  do %1
  do call "core::intrinsics::discriminant_value"(rv($1))
  ret (%1 == call "core::intrinsics::discriminant_value"(rv($1)))

fn oak_core::language::TokenType::is_whitespace
case
  do call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Whitespace{})
  ret call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Whitespace{})

fn oak_core::lexer::LexerCache::get_tokens
case
  ret new "core::option::Option" None{}

fn oak_core::lexer::LexerState::finish_with_cache
  let %1 = new "oak_core::errors::OakDiagnostics"{result: new "core::result::Result" Err{0: $1@Err.0}, diagnostics: $0.errors}
  let %2 = new "oak_core::errors::OakDiagnostics"{result: new "core::result::Result" Ok{0: $0.tokens}, diagnostics: $0.errors}
case
  if ($1 is Err)
  do call "oak_core::lexer::LexerCache::set_lex_output"($2, %1)
  set $2 := post(0, call "oak_core::lexer::LexerCache::set_lex_output"($2, %1))
  ret %1
case
  if not ($1 is Err)
  do call "oak_core::lexer::LexerCache::set_lex_output"($2, %2)
  set $2 := post(0, call "oak_core::lexer::LexerCache::set_lex_output"($2, %2))
  ret %2

fn oak_core::lexer::LexerState::fully_reused
case
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  ret !((*$0).cursor.offset < call "oak_core::source::Source::length"((*$0).cursor.source))

fn oak_core::lexer::LexerState::new_with_cache
  let %1 = (call "oak_core::source::Source::length"($0) < min($1, call "oak_core::source::Source::length"($0)) + 1)
  let %2 = len((*call "oak_core::lexer::LexerCache::get_tokens"($2)@Some.0))
  let %3 = min(call "oak_core::source::Source::length"($0), min(call "oak_core::source::Source::length"($0), 0))
  let %4 = new "oak_core::source::cursor::SourceCursor"{source: $0, offset: %3, chunk: call "oak_core::source::Source::chunk_at"($0, %3), scratch: ""}
  let %5 = min(call "oak_core::source::Source::length"($0), min(call "oak_core::source::Source::length"($0), (*call "oak_core::lexer::LexerCache::get_tokens"($2)@Some.0)[(%2 - 1)].span.end))
  let %6 = (call "oak_core::lexer::LexerCache::count_tokens"($2) < n("L0") + 1)
  let %7 = call "oak_core::lexer::LexerCache::get_token"($2, n("L0"))@Some.0
  let %8 = min(call "oak_core::source::Source::length"($0), min(call "oak_core::source::Source::length"($0), lv("L0", "v0")[(len(lv("L0", "v0")) - 1)].span.end))
  let %9 = call "oak_core::source::Source::chunk_at"($0, min(call "oak_core::source::Source::length"($0), 0))
  let %10 = new "oak_core::source::cursor::SourceCursor"{source: $0, offset: min(call "oak_core::source::Source::length"($0), 0), chunk: %9, scratch: ""}
  let %11 = new "oak_core::lexer::LexerState"{cursor: %10, tokens: vnew(), errors: vnew()}
  let %12 = call "[T]::partition_point"(call "oak_core::lexer::LexerCache::get_tokens"($2)@Some.0, clo('oak_core::lexer::LexerState::new_with_cache::{closure#1}', <rv(min($1, call "oak_core::source::Source::length"($0)))>))
  let %13 = min(call "oak_core::source::Source::length"($0), (*call "oak_core::lexer::LexerCache::get_tokens"($2)@Some.0)[(max0((%12 - 1)) - 1)].span.end)
  let %14 = (min(len(lv("L0", "v0")), max0((len(lv("L0", "v0")) - 1))) == 0)
  let %15 = new "oak_core::lexer::LexerState"{cursor: %10, tokens: vtrunc(lv("L0", "v0"), max0((len(lv("L0", "v0")) - 1))), errors: vnew()}
  let %16 = (min($1, call "oak_core::source::Source::length"($0)) < %7.span.end)
  let %17 = min(call "oak_core::source::Source::length"($0), vtrunc(lv("L0", "v0"), max0((len(lv("L0", "v0")) - 1)))[(min(len(lv("L0", "v0")), max0((len(lv("L0", "v0")) - 1))) - 1)].span.end)
  let %18 = new "oak_core::lexer::LexerState"{cursor: new "oak_core::source::cursor::SourceCursor"{source: $0, offset: %17, chunk: call "oak_core::source::Source::chunk_at"($0, %17), scratch: ""}, tokens: vtrunc(lv("L0", "v0"), max0((len(lv("L0", "v0")) - 1))), errors: vnew()}
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if %1
  if (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if (%2 == 0)
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::chunk_at"($0, %3)
  ret new "oak_core::lexer::LexerState"{cursor: %4, tokens: (*call "oak_core::lexer::LexerCache::get_tokens"($2)@Some.0), errors: vnew()}
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if %1
  if (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if not (%2 == 0)
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::chunk_at"($0, %5)
  ret new "oak_core::lexer::LexerState"{cursor: new "oak_core::source::cursor::SourceCursor"{source: $0, offset: %5, chunk: call "oak_core::source::Source::chunk_at"($0, %5), scratch: ""}, tokens: (*call "oak_core::lexer::LexerCache::get_tokens"($2)@Some.0), errors: vnew()}
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if %1
  if not (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if %6
  if (len(lv("L0", "v0")) == 0)
  loop L0 @0 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::lexer::LexerCache::count_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::chunk_at"($0, %3)
  ret new "oak_core::lexer::LexerState"{cursor: %4, tokens: lv("L0", "v0"), errors: vnew()}
pass L0
  if not %6
  if (call "oak_core::lexer::LexerCache::get_token"($2, n("L0")) is Some)
  loop L0 @0 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::get_token"($2, n("L0"))
  then v0 := vpush(lv("L0", "v0"), %7)
pass L0
  if not %6
  if not (call "oak_core::lexer::LexerCache::get_token"($2, n("L0")) is Some)
  loop L0 @0 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::get_token"($2, n("L0"))
  then v0 := lv("L0", "v0")
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if %1
  if not (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if %6
  if not (len(lv("L0", "v0")) == 0)
  loop L0 @0 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::lexer::LexerCache::count_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::chunk_at"($0, %8)
  ret new "oak_core::lexer::LexerState"{cursor: new "oak_core::source::cursor::SourceCursor"{source: $0, offset: %8, chunk: call "oak_core::source::Source::chunk_at"($0, %8), scratch: ""}, tokens: lv("L0", "v0"), errors: vnew()}
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if (min($1, call "oak_core::source::Source::length"($0)) == 0)
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::length"($0)
  do %9
  ret %11
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if not (min($1, call "oak_core::source::Source::length"($0)) == 0)
  if (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if (max0((%12 - 1)) < 1)
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do %12
  do call "oak_core::source::Source::length"($0)
  do %9
  ret %11
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if not (min($1, call "oak_core::source::Source::length"($0)) == 0)
  if (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if not (max0((%12 - 1)) < 1)
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do %12
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::chunk_at"($0, %13)
  ret new "oak_core::lexer::LexerState"{cursor: new "oak_core::source::cursor::SourceCursor"{source: $0, offset: %13, chunk: call "oak_core::source::Source::chunk_at"($0, %13), scratch: ""}, tokens: slice((*call "oak_core::lexer::LexerCache::get_tokens"($2)@Some.0), 0, max0((%12 - 1))), errors: vnew()}
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if not (min($1, call "oak_core::source::Source::length"($0)) == 0)
  if not (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if %6
  if %14
  loop L0 @1 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::lexer::LexerCache::count_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do %9
  ret %15
pass L0
  if not %6
  if (call "oak_core::lexer::LexerCache::get_token"($2, n("L0")) is Some)
  if not %16
  loop L0 @1 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::get_token"($2, n("L0"))
  then v0 := vpush(lv("L0", "v0"), %7)
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if not (min($1, call "oak_core::source::Source::length"($0)) == 0)
  if not (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if %6
  if not %14
  loop L0 @1 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::lexer::LexerCache::count_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::chunk_at"($0, %17)
  ret %18
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if not (min($1, call "oak_core::source::Source::length"($0)) == 0)
  if not (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if not %6
  if (call "oak_core::lexer::LexerCache::get_token"($2, n("L0")) is Some)
  if %16
  if %14
  loop L0 @1 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::lexer::LexerCache::count_tokens"($2)
  do call "oak_core::lexer::LexerCache::get_token"($2, n("L0"))
  do call "oak_core::source::Source::length"($0)
  do %9
  ret %15
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if not (min($1, call "oak_core::source::Source::length"($0)) == 0)
  if not (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if not %6
  if (call "oak_core::lexer::LexerCache::get_token"($2, n("L0")) is Some)
  if %16
  if not %14
  loop L0 @1 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::lexer::LexerCache::count_tokens"($2)
  do call "oak_core::lexer::LexerCache::get_token"($2, n("L0"))
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::chunk_at"($0, %17)
  ret %18
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if not (min($1, call "oak_core::source::Source::length"($0)) == 0)
  if not (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if not %6
  if not (call "oak_core::lexer::LexerCache::get_token"($2, n("L0")) is Some)
  if %14
  loop L0 @1 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::lexer::LexerCache::count_tokens"($2)
  do call "oak_core::lexer::LexerCache::get_token"($2, n("L0"))
  do call "oak_core::source::Source::length"($0)
  do %9
  ret %15
case
  if true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  if not %1
  if not (min($1, call "oak_core::source::Source::length"($0)) == 0)
  if not (call "oak_core::lexer::LexerCache::get_tokens"($2) is Some)
  if not %6
  if not (call "oak_core::lexer::LexerCache::get_token"($2, n("L0")) is Some)
  if not %14
  loop L0 @1 | v0 from vnew()
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::lexer::LexerCache::get_tokens"($2)
  do call "oak_core::lexer::LexerCache::count_tokens"($2)
  do call "oak_core::lexer::LexerCache::get_token"($2, n("L0"))
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::chunk_at"($0, %17)
  ret %18
case
  if not true(call "oak_core::lexer::LexerCache::has_tokens"($2))
  do call "oak_core::lexer::LexerCache::has_tokens"($2)
  do call "oak_core::source::Source::length"($0)
  do %9
  ret %11

fn oak_core::lexer::LexerState::new_with_cache::{closure#1}  [private]
  takes &oak_core::lexer::Token<<L as oak_core::language::Language>::TokenType>
case
  ret !((*(*$0).0) < (*$1).span.end)

fn oak_core::lexer::arc_slice_serde::deserialize
  let %1 = call "<triomphe::arc::Arc as core::iter::traits::collect::FromIterator<A>>::from_iter"(call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0)@Ok.0)
case
  if (call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0) is Err)
  do call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0)
  ret new "core::result::Result" Err{0: call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0)@Err.0}
case
  if not (call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0) is Err)
  do call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0)
  do %1
  ret new "core::result::Result" Ok{0: %1}

fn oak_core::lexer::arc_slice_serde::serialize
case
  do call "<[T] as serde_core::ser::Serialize>::serialize"((*$0), $1)
  ret call "<[T] as serde_core::ser::Serialize>::serialize"((*$0), $1)
