fn oak_core::parser::parse
case
  do call "oak_core::parser::Parser::parse"($0, $2, $3, $4)
  set $4 := post(3, call "oak_core::parser::Parser::parse"($0, $2, $3, $4))
  ret call "oak_core::parser::Parser::parse"($0, $2, $3, $4)

fn oak_core::parser::parse_one_pass
  let %1 = call "oak_core::parser::Parser::parse"($0, $1, rv(new "[]"{}), $2)
case
  do %1
  set $2 := post(3, %1)
  ret %1

fn oak_core::parser::parse_with_lexer
  given oak_core::parser::state::ParserState::new
  given oak_core::parser::state::ParserState::set_incremental
  let %1 = call "oak_core::parser::session::ParseCache::lex_output"(rv(post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))))
  let %2 = call "oak_core::parser::session::ParseCache::old_tree"(rv(post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))))
  let %3 = call "oak_core::parser::session::ParseCache::arena"(rv(post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))))
  let %4 = new "oak_core::errors::OakDiagnostics"{result: (*%1@Some.0).result, diagnostics: (*%1@Some.0).diagnostics}
  let %5 = call "oak_core::parser::state::ParserState::new"(call "core::intrinsics::transmute"(%3), %4, $1, max(len((*(*%2@Some.0).children)), 1024))
  let %6 = call "oak_core::parser::state::ParserState::set_incremental"(rv(%5), call "core::intrinsics::transmute"(%2@Some.0), $2)
  let %7 = call "core::ops::function::FnOnce::call_once"($4, tup{0: rv(post(0, %6))})
  let %8 = new "oak_core::errors::OakDiagnostics"{result: %7, diagnostics: post(0, %6).errors}
  let %9 = call "oak_core::parser::state::ParserState::new"(call "core::intrinsics::transmute"(%3), %4, $1, 1024)
  let %10 = call "core::ops::function::FnOnce::call_once"($4, tup{0: rv(%9)})
  let %11 = new "oak_core::errors::OakDiagnostics"{result: %10, diagnostics: %9.errors}
  let %12 = call "oak_core::lexer::Lexer::lex"($0, $1, $2, rv(post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))))
  let %13 = call "oak_core::lexer::LexerCache::set_lex_output"(rv(post(3, %12)), new "oak_core::errors::OakDiagnostics"{result: %12.result, diagnostics: %12.diagnostics})
  let %14 = call "oak_core::parser::session::ParseCache::old_tree"(rv(post(0, %13)))
  let %15 = call "oak_core::parser::session::ParseCache::arena"(rv(post(0, %13)))
  let %16 = call "oak_core::parser::state::ParserState::new"(call "core::intrinsics::transmute"(%15), %12, $1, max(1024, len((*(*%14@Some.0).children))))
  let %17 = call "oak_core::parser::state::ParserState::set_incremental"(rv(%16), call "core::intrinsics::transmute"(%14@Some.0), $2)
  let %18 = call "core::ops::function::FnOnce::call_once"($4, tup{0: rv(post(0, %17))})
  let %19 = new "oak_core::errors::OakDiagnostics"{result: %18, diagnostics: post(0, %17).errors}
  let %20 = call "oak_core::parser::state::ParserState::new"(call "core::intrinsics::transmute"(%15), %12, $1, 1024)
  let %21 = call "core::ops::function::FnOnce::call_once"($4, tup{0: rv(%20)})
  let %22 = new "oak_core::errors::OakDiagnostics"{result: %21, diagnostics: %20.errors}
case
  if (%1 is Some)
  if (%2 is Some)
  if (%7 is Err)
  do call "oak_core::parser::session::ParseCache::prepare_generation"($3)
  do %1
  do %2
  do %3
  do call "core::intrinsics::transmute"(%3)
  do %5
  do %2
  do call "core::intrinsics::transmute"(%2@Some.0)
  do %6
  do %7
  set $3 := post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))
  ret %8
case
  if (%1 is Some)
  if (%2 is Some)
  if not (%7 is Err)
  do call "oak_core::parser::session::ParseCache::prepare_generation"($3)
  do %1
  do %2
  do %3
  do call "core::intrinsics::transmute"(%3)
  do %5
  do %2
  do call "core::intrinsics::transmute"(%2@Some.0)
  do %6
  do %7
  do call "oak_core::parser::session::ParseCache::commit_generation"(rv(post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))), %7@Ok.0)
  set $3 := post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))
  ret %8
case
  if (%1 is Some)
  if not (%2 is Some)
  if (%10 is Err)
  do call "oak_core::parser::session::ParseCache::prepare_generation"($3)
  do %1
  do %2
  do %3
  do call "core::intrinsics::transmute"(%3)
  do %9
  do %2
  do %10
  set $3 := post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))
  ret %11
case
  if (%1 is Some)
  if not (%2 is Some)
  if not (%10 is Err)
  do call "oak_core::parser::session::ParseCache::prepare_generation"($3)
  do %1
  do %2
  do %3
  do call "core::intrinsics::transmute"(%3)
  do %9
  do %2
  do %10
  do call "oak_core::parser::session::ParseCache::commit_generation"(rv(post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))), %10@Ok.0)
  set $3 := post(0, call "oak_core::parser::session::ParseCache::prepare_generation"($3))
  ret %11
case
  if not (%1 is Some)
  if (%14 is Some)
  if (%18 is Err)
  do call "oak_core::parser::session::ParseCache::prepare_generation"($3)
  do %1
  do %12
  do %13
  do %14
  do %15
  do call "core::intrinsics::transmute"(%15)
  do %16
  do %14
  do call "core::intrinsics::transmute"(%14@Some.0)
  do %17
  do %18
  set $3 := post(0, %13)
  ret %19
case
  if not (%1 is Some)
  if (%14 is Some)
  if not (%18 is Err)
  do call "oak_core::parser::session::ParseCache::prepare_generation"($3)
  do %1
  do %12
  do %13
  do %14
  do %15
  do call "core::intrinsics::transmute"(%15)
  do %16
  do %14
  do call "core::intrinsics::transmute"(%14@Some.0)
  do %17
  do %18
  do call "oak_core::parser::session::ParseCache::commit_generation"(rv(post(0, %13)), %18@Ok.0)
  set $3 := post(0, %13)
  ret %19
case
  if not (%1 is Some)
  if not (%14 is Some)
  if (%21 is Err)
  do call "oak_core::parser::session::ParseCache::prepare_generation"($3)
  do %1
  do %12
  do %13
  do %14
  do %15
  do call "core::intrinsics::transmute"(%15)
  do %20
  do %14
  do %21
  set $3 := post(0, %13)
  ret %22
case
  if not (%1 is Some)
  if not (%14 is Some)
  if not (%21 is Err)
  do call "oak_core::parser::session::ParseCache::prepare_generation"($3)
  do %1
  do %12
  do %13
  do %14
  do %15
  do call "core::intrinsics::transmute"(%15)
  do %20
  do %14
  do %21
  do call "oak_core::parser::session::ParseCache::commit_generation"(rv(post(0, %13)), %21@Ok.0)
  set $3 := post(0, %13)
  ret %22

fn oak_core::parser::state::ParserState::checkpoint
case
  ret tup{0: (*$0).tokens.index, 1: len((*$0).sink.children)}

fn oak_core::parser::state::ParserState::checkpoint_before
  let %1 = (ptr($1) === ptr((*$0).sink.children[(lv("L0", "v0") - 1)]@Node.0))
case
  if (lv("L0", "v0") < 1)
  loop L0 | v0 from len((*$0).sink.children)
  ret tup{0: 0, 1: len((*$0).sink.children)}
pass L0
  if not (lv("L0", "v0") < 1)
  if (len((*$0).sink.children) < lv("L0", "v0"))
  loop L0 | v0 from len((*$0).sink.children)
  then v0 := (lv("L0", "v0") - 1)
pass L0
  if not (lv("L0", "v0") < 1)
  if not (len((*$0).sink.children) < lv("L0", "v0"))
  if ((*$0).sink.children[(lv("L0", "v0") - 1)] is Leaf)
  loop L0 | v0 from len((*$0).sink.children)
  then v0 := (lv("L0", "v0") - 1)
pass L0
  if not (lv("L0", "v0") < 1)
  if not (len((*$0).sink.children) < lv("L0", "v0"))
  if not ((*$0).sink.children[(lv("L0", "v0") - 1)] is Leaf)
  if not %1
  loop L0 | v0 from len((*$0).sink.children)
  then v0 := (lv("L0", "v0") - 1)
case
  if not (lv("L0", "v0") < 1)
  if not (len((*$0).sink.children) < lv("L0", "v0"))
  if not ((*$0).sink.children[(lv("L0", "v0") - 1)] is Leaf)
  if %1
  loop L0 | v0 from len((*$0).sink.children)
  ret tup{0: 0, 1: (lv("L0", "v0") - 1)}

fn oak_core::parser::state::ParserState::finish
case
  ret new "oak_core::errors::OakDiagnostics"{result: $1, diagnostics: $0.errors}

fn oak_core::parser::state::ParserState::finish_at
  given oak_core::parser::state::TreeSink::finish_node
  let %1 = call "oak_core::parser::state::TreeSink::finish_node"(rv((*$0).sink), $1.1, $2)
case
  do %1
  set $0 := ((*$0) with {sink: post(0, %1)})
  ret %1

fn oak_core::parser::state::ParserState::incremental_node
  given oak_core::parser::state::ParserState::checkpoint
  given oak_core::parser::state::ParserState::finish_at
  given oak_core::parser::state::ParserState::try_reuse
  let %1 = rv(post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1)))
  let %2 = call "core::ops::function::FnOnce::call_once"($2, tup{0: %1})
  let %3 = call "oak_core::parser::state::ParserState::finish_at"(%1, call "oak_core::parser::state::ParserState::checkpoint"(%1), $1)
case
  if true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  set $0 := post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  do call "oak_core::parser::state::ParserState::checkpoint"(%1)
  do %2
  do %3
  set $0 := post(0, %3)
  ret %2

fn oak_core::parser::state::ParserState::incremental_opt
  given oak_core::parser::state::ParserState::checkpoint
  given oak_core::parser::state::ParserState::finish_at
  given oak_core::parser::state::ParserState::try_reuse
  let %1 = rv(post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1)))
  let %2 = call "core::ops::function::FnOnce::call_once"($2, tup{0: %1})
  let %3 = call "oak_core::parser::state::ParserState::finish_at"(%1, call "oak_core::parser::state::ParserState::checkpoint"(%1), $1)
case
  if true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  set $0 := post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  ret new "core::result::Result" Ok{0: 1}
case
  if not true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  if (%2 is Err)
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  do call "oak_core::parser::state::ParserState::checkpoint"(%1)
  do %2
  do %3
  set $0 := post(0, %3)
  ret new "core::result::Result" Err{0: %2@Err.0}
case
  if not true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  if not (%2 is Err)
  if true(%2@Ok.0)
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  do call "oak_core::parser::state::ParserState::checkpoint"(%1)
  do %2
  do %3
  set $0 := post(0, %3)
  ret new "core::result::Result" Ok{0: 1}
case
  if not true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  if not (%2 is Err)
  if not true(%2@Ok.0)
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  do call "oak_core::parser::state::ParserState::checkpoint"(%1)
  do %2
  set $0 := post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  ret new "core::result::Result" Ok{0: 0}

fn oak_core::parser::state::ParserState::new
  given oak_core::parser::state::ParserState::skip_trivia
  let %1 = call "oak_core::parser::state::ParserState::skip_trivia"(rv(new "oak_core::parser::state::ParserState"{tokens: new "oak_core::parser::state::TokenSource"{tokens: vnew(), index: 0}, sink: new "oak_core::parser::state::TreeSink"{arena: $0, children: vnew()}, incremental: new "core::option::Option" None{}, errors: vcat(vpush(vnew(), $1.result@Err.0), $1.diagnostics), source: $2}))
  let %2 = call "oak_core::parser::state::ParserState::skip_trivia"(rv(new "oak_core::parser::state::ParserState"{tokens: new "oak_core::parser::state::TokenSource"{tokens: $1.result@Ok.0, index: 0}, sink: new "oak_core::parser::state::TreeSink"{arena: $0, children: vnew()}, incremental: new "core::option::Option" None{}, errors: $1.diagnostics, source: $2}))
case
  if ($1.result is Err)
  do %1
  ret post(0, %1)
case
  if not ($1.result is Err)
  do %2
  ret post(0, %2)

fn oak_core::parser::state::ParserState::promote
  given oak_core::parser::state::deep_clone_node
  let %1 = call "oak_core::parser::state::deep_clone_node"($1, (*$0).sink.arena)
case
  do %1
  ret %1

fn oak_core::parser::state::ParserState::push_child
case
  set $0 := ((*$0) with {sink: ((*$0).sink with {children: vpush((*$0).sink.children, new "oak_core::tree::green_tree::GreenTree" Node{0: $1})})})
  ret tup{}

fn oak_core::parser::state::ParserState::restore
case
  set $0 := ((*$0) with {sink: ((*$0).sink with {children: vtrunc((*$0).sink.children, $1.1)}), tokens: ((*$0).tokens with {index: $1.0})})
  ret tup{}

fn oak_core::parser::state::ParserState::try_parse
  let %1 = (call "core::ops::function::FnOnce::call_once"($1, tup{0: $0}) is Err)
case
  if %1
  do call "core::ops::function::FnOnce::call_once"($1, tup{0: $0})
  ret new "core::result::Result" Err{0: call "core::ops::function::FnOnce::call_once"($1, tup{0: $0})@Err.0}
case
  if not %1
  do call "core::ops::function::FnOnce::call_once"($1, tup{0: $0})
  ret new "core::result::Result" Ok{0: call "core::ops::function::FnOnce::call_once"($1, tup{0: $0})@Ok.0}

fn oak_core::parser::state::ParserState::try_parse_with_error
  let %1 = (call "core::ops::function::FnOnce::call_once"($1, tup{0: $0}) is Err)
case
  if %1
  do call "core::ops::function::FnOnce::call_once"($1, tup{0: $0})
  ret new "core::result::Result" Err{0: call "core::ops::function::FnOnce::call_once"($1, tup{0: $0})@Err.0}
case
  if not %1
  do call "core::ops::function::FnOnce::call_once"($1, tup{0: $0})
  ret new "core::result::Result" Ok{0: call "core::ops::function::FnOnce::call_once"($1, tup{0: $0})@Ok.0}

fn oak_core::parser::state::TokenSource::index
case
  ret (*$0).index

fn oak_core::parser::state::TokenSource::set_index
case
  set $0 := ((*$0) with {index: $1})
  ret tup{}

fn oak_core::parser::state::TreeSink::arena
case
  ret (*$0).arena

fn oak_core::parser::state::TreeSink::checkpoint
case
  ret len((*$0).children)

fn oak_core::parser::state::TreeSink::finish_node
  given oak_core::memory::arena::SyntaxArena::alloc
  given oak_core::memory::arena::SyntaxArena::alloc_slice_copy
  given oak_core::tree::green_tree::GreenNode::new
  let %1 = call "oak_core::memory::arena::SyntaxArena::alloc_slice_copy"((*$0).arena, rv(slice((*$0).children, $1, len((*$0).children))))
  let %2 = call "oak_core::memory::arena::SyntaxArena::alloc"((*$0).arena, call "oak_core::tree::green_tree::GreenNode::new"($2, %1))
case
  do %1
  do call "oak_core::tree::green_tree::GreenNode::new"($2, %1)
  do %2
  set $0 := ((*$0) with {children: vpush(vtrunc((*$0).children, $1), new "oak_core::tree::green_tree::GreenTree" Node{0: %2})})
  ret %2

fn oak_core::parser::state::TreeSink::new
case
  ret new "oak_core::parser::state::TreeSink"{arena: $0, children: vnew()}

fn oak_core::parser::state::TreeSink::push_leaf
case
  set $0 := ((*$0) with {children: vpush((*$0).children, new "oak_core::tree::green_tree::GreenTree" Leaf{0: new "oak_core::tree::green_tree::GreenLeaf"{kind: $1, length: $2, metadata: new "core::option::Option" None{}}})})
  ret tup{}

fn oak_core::parser::state::TreeSink::push_leaf_with_metadata
  let %1 = call "core::num::nonzero::NonZero::new"((len((*(*$0).arena).metadata.value) + 1))
case
  if not (%1 is Some)
  panics
case
  if (%1 is Some)
  do %1
  set $0 := ((*$0) with {children: vpush((*$0).children, new "oak_core::tree::green_tree::GreenTree" Leaf{0: new "oak_core::tree::green_tree::GreenLeaf"{kind: $1, length: $2, metadata: new "core::option::Option" Some{0: %1@Some.0}}})})
  set (*$0).arena := ((*(*$0).arena) with {metadata: ((*(*$0).arena).metadata with {value: vpush((*(*$0).arena).metadata.value, $3)})})
  ret tup{}

fn oak_core::parser::state::TreeSink::push_node
case
  set $0 := ((*$0) with {children: vpush((*$0).children, new "oak_core::tree::green_tree::GreenTree" Node{0: $1})})
  ret tup{}

fn oak_core::parser::state::TreeSink::restore
case
  set $0 := ((*$0) with {children: vtrunc((*$0).children, $1)})
  ret tup{}

fn oak_core::parser::state::deep_clone_node
  given oak_core::memory::arena::SyntaxArena::alloc
  given oak_core::memory::arena::SyntaxArena::alloc_slice_fill_iter
  given oak_core::tree::green_tree::GreenNode::new
  let %1 = call "oak_core::memory::arena::SyntaxArena::alloc_slice_fill_iter"($1, len((*(*$0).children)), new "it.map"{inner: new "it.slice"{seq: (*$0).children, pos: 0, end: len((*(*$0).children))}, f: clo('oak_core::parser::state::deep_clone_node::{closure#0}', <$1>)})
  let %2 = call "oak_core::tree::green_tree::GreenNode::new"((*$0).kind, %1)
case
  do %1
  do %2
  do call "oak_core::memory::arena::SyntaxArena::alloc"($1, %2)
  ret call "oak_core::memory::arena::SyntaxArena::alloc"($1, %2)

fn oak_core::parser::state::deep_clone_node::{closure#0}  [private]
  takes &oak_core::tree::green_tree::GreenTree<, L>
  given oak_core::parser::state::deep_clone_node
  let %1 = call "oak_core::parser::state::deep_clone_node"((*$1)@Node.0, (*$0).0)
case
  if ((*$1) is Leaf)
  ret new "oak_core::tree::green_tree::GreenTree" Leaf{0: (*$1)@Leaf.0}
case
  if not ((*$1) is Leaf)
  do %1
  ret new "oak_core::tree::green_tree::GreenTree" Node{0: %1}

fn oak_core::tree::green_tree::GreenNode::new
case
  ret new "oak_core::tree::green_tree::GreenNode"{kind: $0, text_len: sum(j0, 0, len((*$1)), case{((*$1)[?j0] is Leaf) => (*$1)[?j0]@Leaf.0.length; !((*$1)[?j0] is Leaf) => (*(*$1)[?j0]@Node.0).text_len}), children: $1}

fn oak_core::tree::green_tree::GreenNode::text_len
case
  ret (*$0).text_len
