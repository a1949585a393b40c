fn <&mut C as oak_core::parser::session::ParseCache<L>>::arena
case
  do call "oak_core::parser::session::ParseCache::arena"((*$0))
  ret call "oak_core::parser::session::ParseCache::arena"((*$0))

fn <&mut C as oak_core::parser::session::ParseCache<L>>::commit_generation
case
  do call "oak_core::parser::session::ParseCache::commit_generation"((*$0), $1)
  ret call "oak_core::parser::session::ParseCache::commit_generation"((*$0), $1)

fn <&mut C as oak_core::parser::session::ParseCache<L>>::lex_output
case
  do call "oak_core::parser::session::ParseCache::lex_output"((*$0))
  ret call "oak_core::parser::session::ParseCache::lex_output"((*$0))

fn <&mut C as oak_core::parser::session::ParseCache<L>>::old_tree
case
  do call "oak_core::parser::session::ParseCache::old_tree"((*$0))
  ret call "oak_core::parser::session::ParseCache::old_tree"((*$0))

fn <&mut C as oak_core::parser::session::ParseCache<L>>::prepare_generation
case
  do call "oak_core::parser::session::ParseCache::prepare_generation"((*$0))
  ret call "oak_core::parser::session::ParseCache::prepare_generation"((*$0))

fn <oak_core::parser::session::ParseSession as core::default::Default>::default
case
  do call "core::ptr::non_null::NonNull::dangling"()
  ret new "oak_core::parser::session::ParseSession"{arena_active: new "oak_core::memory::arena::SyntaxArena"{ptr: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, end: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, full_chunks: new "UnsafeCell"{value: vnew()}, current_chunk_start: new "UnsafeCell"{value: call "core::ptr::non_null::NonNull::dangling"()}, metadata: new "UnsafeCell"{value: vnew()}}, arena_old: new "core::option::Option" None{}, last_root: new "Cell"{value: new "core::option::Option" None{}}, committed: new "Cell"{value: 0}, last_lex: new "core::option::Option" None{}}

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::count_tokens
case
  if ((*$0).last_lex is Some)
  if ((*$0).last_lex@Some.0.result is Err)
  ret 0
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  ret len((*(*$0).last_lex@Some.0.result@Ok.0))
case
  if not ((*$0).last_lex is Some)
  ret 0

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::get_token
case
  if ((*$0).last_lex is Some)
  if ((*$0).last_lex@Some.0.result is Err)
  ret new "core::option::Option" None{}
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  if ($1 < len((*(*$0).last_lex@Some.0.result@Ok.0)))
  ret new "core::option::Option" Some{0: (*(*$0).last_lex@Some.0.result@Ok.0)[$1]}
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  if not ($1 < len((*(*$0).last_lex@Some.0.result@Ok.0)))
  ret new "core::option::Option" None{}
case
  if not ((*$0).last_lex is Some)
  ret new "core::option::Option" None{}

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::get_tokens
case
  if ((*$0).last_lex is Some)
  if ((*$0).last_lex@Some.0.result is Err)
  ret new "core::option::Option" None{}
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  ret new "core::option::Option" Some{0: (*$0).last_lex@Some.0.result@Ok.0}
case
  if not ((*$0).last_lex is Some)
  ret new "core::option::Option" None{}

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::has_tokens
case
  if ((*$0).last_lex is Some)
  if ((*$0).last_lex@Some.0.result is Err)
  ret 0
case
  if ((*$0).last_lex is Some)
  if not ((*$0).last_lex@Some.0.result is Err)
  ret !(len((*(*$0).last_lex@Some.0.result@Ok.0)) == 0)
case
  if not ((*$0).last_lex is Some)
  ret 0

fn <oak_core::parser::session::ParseSession as oak_core::lexer::LexerCache<L>>::set_lex_output
case
  set $0 := ((*$0) with {last_lex: new "core::option::Option" Some{0: $1}})
  ret tup{}

fn <oak_core::parser::session::ParseSession as oak_core::parser::session::ParseCache<L>>::arena
case
  ret rv((*$0).arena_active)

fn <oak_core::parser::session::ParseSession as oak_core::parser::session::ParseCache<L>>::commit_generation
case
  set $0 := ((*$0) with {committed: ((*$0).committed with {value: 1}), last_root: ((*$0).last_root with {value: new "core::option::Option" Some{0: $1}})})
  ret tup{}

fn <oak_core::parser::session::ParseSession as oak_core::parser::session::ParseCache<L>>::lex_output
case
  if ((*$0).last_lex is Some)
  ret new "core::option::Option" Some{0: rv((*$0).last_lex@Some.0)}
case
  if not ((*$0).last_lex is Some)
  ret new "core::option::Option" None{}

fn <oak_core::parser::session::ParseSession as oak_core::parser::session::ParseCache<L>>::old_tree
case
  if ((*$0).last_root.value is Some)
  if ((*$0).arena_old is Some)
  ret new "core::option::Option" Some{0: (*$0).last_root.value@Some.0}
case
  if ((*$0).last_root.value is Some)
  if not ((*$0).arena_old is Some)
  ret new "core::option::Option" None{}
case
  if not ((*$0).last_root.value is Some)
  ret new "core::option::Option" None{}

fn <oak_core::parser::session::ParseSession as oak_core::parser::session::ParseCache<L>>::prepare_generation
  let %1 = true(call "core::cell::Cell::replace"(rv((*$0).committed), 0))
  let %2 = new "oak_core::memory::arena::SyntaxArena"{ptr: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, end: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, full_chunks: new "UnsafeCell"{value: vnew()}, current_chunk_start: new "UnsafeCell"{value: call "core::ptr::non_null::NonNull::dangling"()}, metadata: new "UnsafeCell"{value: vnew()}}
case
  if %1
  do call "core::ptr::non_null::NonNull::dangling"()
  do call "core::cell::Cell::replace"(rv((*$0).committed), 0)
  set $0 := ((*$0) with {arena_active: %2, arena_old: new "core::option::Option" Some{0: (*$0).arena_active}, last_lex: new "core::option::Option" None{}})
  ret tup{}
case
  if not %1
  do call "core::ptr::non_null::NonNull::dangling"()
  do call "core::cell::Cell::replace"(rv((*$0).committed), 0)
  set $0 := ((*$0) with {arena_active: %2, last_lex: new "core::option::Option" None{}})
  ret tup{}

fn oak_core::parser::session::ParseSession::last_root
case
  if ((*$0).last_root.value is Some)
  ret new "core::option::Option" Some{0: (*$0).last_root.value@Some.0}
case
  if not ((*$0).last_root.value is Some)
  ret new "core::option::Option" None{}

fn oak_core::parser::session::ParseSession::new
case
  do call "core::ptr::non_null::NonNull::dangling"()
  ret new "oak_core::parser::session::ParseSession"{arena_active: new "oak_core::memory::arena::SyntaxArena"{ptr: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, end: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, full_chunks: new "UnsafeCell"{value: vnew()}, current_chunk_start: new "UnsafeCell"{value: call "core::ptr::non_null::NonNull::dangling"()}, metadata: new "UnsafeCell"{value: vnew()}}, arena_old: new "core::option::Option" None{}, last_root: new "Cell"{value: new "core::option::Option" None{}}, committed: new "Cell"{value: 0}, last_lex: new "core::option::Option" None{}}
