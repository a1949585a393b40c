fn oak_core::parser::pratt::OperatorInfo::left
case
  ret new "oak_core::parser::pratt::OperatorInfo"{precedence: $0, associativity: new "oak_core::parser::pratt::Associativity" Left{}}

fn oak_core::parser::pratt::OperatorInfo::none
case
  ret new "oak_core::parser::pratt::OperatorInfo"{precedence: $0, associativity: new "oak_core::parser::pratt::Associativity" None{}}

fn oak_core::parser::pratt::OperatorInfo::right
case
  ret new "oak_core::parser::pratt::OperatorInfo"{precedence: $0, associativity: new "oak_core::parser::pratt::Associativity" Right{}}

fn oak_core::parser::pratt::Pratt::prefix
case
  do call "oak_core::parser::pratt::Pratt::primary"($0, $1)
  set $1 := post(1, call "oak_core::parser::pratt::Pratt::primary"($0, $1))
  ret call "oak_core::parser::pratt::Pratt::primary"($0, $1)

fn oak_core::parser::pratt::PrattParser::new
case
  ret new "oak_core::parser::pratt::PrattParser"{spec: $0, _marker: new "core::marker::PhantomData"{}}

fn oak_core::parser::pratt::PrattParser::parse
  let %1 = call "oak_core::parser::pratt::Pratt::infix"($2, rv(lv("L0", "v0")), lv("L0", "v1"), $1)
case
  if not (%1 is Some)
  loop L0 | v0 from post(1, call "oak_core::parser::pratt::Pratt::prefix"($2, $0)) | v1 from call "oak_core::parser::pratt::Pratt::prefix"($2, $0)
  do call "oak_core::parser::pratt::Pratt::prefix"($2, $0)
  do %1
  set $0 := post(1, %1)
  ret lv("L0", "v1")
pass L0
  if (%1 is Some)
  loop L0 | v0 from post(1, call "oak_core::parser::pratt::Pratt::prefix"($2, $0)) | v1 from call "oak_core::parser::pratt::Pratt::prefix"($2, $0)
  do %1
  then v0 := post(1, %1)
  then v1 := %1@Some.0

fn oak_core::parser::pratt::PrattParser::parse_expr
  given oak_core::parser::pratt::PrattParser::parse
  let %1 = call "oak_core::parser::pratt::PrattParser::parse"($1, $2, rv((*$0).spec))
case
  do %1
  set $1 := post(0, %1)
  ret %1

fn oak_core::parser::pratt::binary
  given oak_core::parser::state::ParserState::checkpoint_before
  given oak_core::parser::state::ParserState::expect
  given oak_core::parser::state::ParserState::finish_at
  let %1 = call "oak_core::parser::state::ParserState::expect"(rv(post(0, call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1))), $2)
  let %2 = call "core::ops::function::FnMut::call_mut"(rv($6), tup{0: rv(post(0, %1)), 1: ($3 + 1)})
  let %3 = call "oak_core::parser::state::ParserState::finish_at"(rv(post(0, %1)), call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1), $5)
  let %4 = call "core::ops::function::FnMut::call_mut"(rv($6), tup{0: rv(post(0, %1)), 1: $3})
case
  if (%1 is Err)
  if ($4 is Left)
  do call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1)
  do %1
  do %2
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if (%1 is Err)
  if ($4 is None)
  do call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1)
  do %1
  do %2
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if (%1 is Err)
  if ($4 is Right)
  do call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1)
  do %1
  do %4
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if not (%1 is Err)
  if ($4 is Left)
  do call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1)
  do %1
  do %2
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if not (%1 is Err)
  if ($4 is None)
  do call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1)
  do %1
  do %2
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if not (%1 is Err)
  if ($4 is Right)
  do call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1)
  do %1
  do %4
  do %3
  set $0 := post(0, %3)
  ret %3

fn oak_core::parser::pratt::postfix
  given oak_core::parser::state::ParserState::checkpoint_before
  given oak_core::parser::state::ParserState::expect
  given oak_core::parser::state::ParserState::finish_at
  let %1 = call "oak_core::parser::state::ParserState::expect"(rv(post(0, call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1))), $2)
  let %2 = call "oak_core::parser::state::ParserState::finish_at"(rv(post(0, %1)), call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1), $3)
case
  if (%1 is Err)
  do call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1)
  do %1
  do %2
  set $0 := post(0, %2)
  ret %2
case
  if not (%1 is Err)
  do call "oak_core::parser::state::ParserState::checkpoint_before"($0, $1)
  do %1
  do %2
  set $0 := post(0, %2)
  ret %2

fn oak_core::parser::pratt::unary
  given oak_core::parser::state::ParserState::checkpoint
  given oak_core::parser::state::ParserState::expect
  given oak_core::parser::state::ParserState::finish_at
  let %1 = rv(post(0, call "oak_core::parser::state::ParserState::expect"($0, $1)))
  let %2 = call "core::ops::function::FnMut::call_mut"(rv($4), tup{0: %1, 1: $2})
  let %3 = call "oak_core::parser::state::ParserState::finish_at"(%1, call "oak_core::parser::state::ParserState::checkpoint"($0), $3)
case
  if (call "oak_core::parser::state::ParserState::expect"($0, $1) is Err)
  do call "oak_core::parser::state::ParserState::checkpoint"($0)
  do call "oak_core::parser::state::ParserState::expect"($0, $1)
  do %2
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if not (call "oak_core::parser::state::ParserState::expect"($0, $1) is Err)
  do call "oak_core::parser::state::ParserState::checkpoint"($0)
  do call "oak_core::parser::state::ParserState::expect"($0, $1)
  do %2
  do %3
  set $0 := post(0, %3)
  ret %3

fn oak_core::parser::state::ParserState::checkpoint
case
  ret tup{0: (*$0).tokens.index, 1: len((*$0).sink.children)}

fn oak_core::parser::state::ParserState::checkpoint_before
  let %1 = (ptr($1) === ptr((*$0).sink.children[(lv("L0", "v0") - 1)]@Node.0))
case
  if (lv("L0", "v0") < 1)
  loop L0 | v0 from len((*$0).sink.children)
  ret tup{0: 0, 1: len((*$0).sink.children)}
pass L0
  if not (lv("L0", "v0") < 1)
  if (len((*$0).sink.children) < lv("L0", "v0"))
  loop L0 | v0 from len((*$0).sink.children)
  then v0 := (lv("L0", "v0") - 1)
pass L0
  if not (lv("L0", "v0") < 1)
  if not (len((*$0).sink.children) < lv("L0", "v0"))
  if ((*$0).sink.children[(lv("L0", "v0") - 1)] is Leaf)
  loop L0 | v0 from len((*$0).sink.children)
  then v0 := (lv("L0", "v0") - 1)
pass L0
  if not (lv("L0", "v0") < 1)
  if not (len((*$0).sink.children) < lv("L0", "v0"))
  if not ((*$0).sink.children[(lv("L0", "v0") - 1)] is Leaf)
  if not %1
  loop L0 | v0 from len((*$0).sink.children)
  then v0 := (lv("L0", "v0") - 1)
case
  if not (lv("L0", "v0") < 1)
  if not (len((*$0).sink.children) < lv("L0", "v0"))
  if not ((*$0).sink.children[(lv("L0", "v0") - 1)] is Leaf)
  if %1
  loop L0 | v0 from len((*$0).sink.children)
  ret tup{0: 0, 1: (lv("L0", "v0") - 1)}

fn oak_core::parser::state::ParserState::eat
  given oak_core::parser::state::ParserState::bump
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  if ($1 === (*(*$0).tokens.tokens)[(*$0).tokens.index].kind)
  do call "oak_core::parser::state::ParserState::bump"($0)
  set $0 := post(0, call "oak_core::parser::state::ParserState::bump"($0))
  ret 1
case
  if ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  if not ($1 === (*(*$0).tokens.tokens)[(*$0).tokens.index].kind)
  ret 0
case
  if not ((*$0).tokens.index < len((*(*$0).tokens.tokens)))
  ret 0

fn oak_core::parser::state::ParserState::expect
  given oak_core::parser::state::ParserState::eat
  let %1 = post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)).tokens
  let %2 = post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)).source
  let %3 = post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)).errors
  let %4 = new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedToken{expected: call "into"("alloc::string::String", display('?', $1)), offset: (*%1.tokens)[%1.index].span.start, source_id: call "oak_core::source::Source::source_id"(%2)})}
  let %5 = new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedToken{expected: call "into"("alloc::string::String", display('?', $1)), offset: call "oak_core::source::Source::length"(%2), source_id: call "oak_core::source::Source::source_id"(%2)})}
case
  if true(call "oak_core::parser::state::ParserState::eat"($0, $1))
  do call "oak_core::parser::state::ParserState::eat"($0, $1)
  set $0 := post(0, call "oak_core::parser::state::ParserState::eat"($0, $1))
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not true(call "oak_core::parser::state::ParserState::eat"($0, $1))
  if (%1.index < len((*%1.tokens)))
  do call "oak_core::parser::state::ParserState::eat"($0, $1)
  do call "oak_core::source::Source::source_id"(%2)
  set $0 := (post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)) with {errors: vpush(%3, %4)})
  ret new "core::result::Result" Err{0: %4}
case
  if not true(call "oak_core::parser::state::ParserState::eat"($0, $1))
  if not (%1.index < len((*%1.tokens)))
  do call "oak_core::parser::state::ParserState::eat"($0, $1)
  do call "oak_core::source::Source::length"(%2)
  do call "oak_core::source::Source::source_id"(%2)
  set $0 := (post(0, call "oak_core::parser::state::ParserState::eat"($0, $1)) with {errors: vpush(%3, %5)})
  ret new "core::result::Result" Err{0: %5}

fn oak_core::parser::state::ParserState::finish_at
  given oak_core::parser::state::TreeSink::finish_node
  let %1 = call "oak_core::parser::state::TreeSink::finish_node"(rv((*$0).sink), $1.1, $2)
case
  do %1
  set $0 := ((*$0) with {sink: post(0, %1)})
  ret %1

fn oak_core::parser::state::TreeSink::finish_node
  given oak_core::memory::arena::SyntaxArena::alloc
  given oak_core::memory::arena::SyntaxArena::alloc_slice_copy
  given oak_core::tree::green_tree::GreenNode::new
  let %1 = call "oak_core::memory::arena::SyntaxArena::alloc_slice_copy"((*$0).arena, rv(slice((*$0).children, $1, len((*$0).children))))
  let %2 = call "oak_core::memory::arena::SyntaxArena::alloc"((*$0).arena, call "oak_core::tree::green_tree::GreenNode::new"($2, %1))
case
  do %1
  do call "oak_core::tree::green_tree::GreenNode::new"($2, %1)
  do %2
  set $0 := ((*$0) with {children: vpush(vtrunc((*$0).children, $1), new "oak_core::tree::green_tree::GreenTree" Node{0: %2})})
  ret %2
