fn oak_core::parser::state::IncrementalContext::is_dirty  [private]
  takes &oak_core::parser::state::IncrementalContext<, L>; usize; usize
case
  if (len((*$0).edits) < n("C0") + 1)
  loop C0
  ret 0
case
  if not (len((*$0).edits) < n("C0") + 1)
  if ($1 < (*$0).edits[n("C0")].0.end)
  if not ($2 < (*$0).edits[n("C0")].0.start + 1)
  loop C0
  ret 1

fn oak_core::parser::state::IncrementalContext::map_new_to_old  [private]
  takes &oak_core::parser::state::IncrementalContext<, L>; usize
case
  if (len((*$0).edits) < n("L0") + 1)
  loop L0 | v0 from 0
  ret new "core::option::Option" Some{0: ($1 - lv("L0", "v0"))}
pass L0
  if not (len((*$0).edits) < n("L0") + 1)
  if not ($1 < (*$0).edits[n("L0")].0.start + lv("L0", "v0"))
  if not ($1 < (*$0).edits[n("L0")].0.end + (*$0).edits[n("L0")].1)
  loop L0 | v0 from 0
  then v0 := (*$0).edits[n("L0")].1
case
  if not (len((*$0).edits) < n("L0") + 1)
  if ($1 < (*$0).edits[n("L0")].0.start + lv("L0", "v0"))
  loop L0 | v0 from 0
  ret new "core::option::Option" Some{0: ($1 - lv("L0", "v0"))}
case
  if not (len((*$0).edits) < n("L0") + 1)
  if not ($1 < (*$0).edits[n("L0")].0.start + lv("L0", "v0"))
  if ($1 < (*$0).edits[n("L0")].0.end + (*$0).edits[n("L0")].1)
  loop L0 | v0 from 0
  ret new "core::option::Option" None{}

fn oak_core::parser::state::IncrementalContext::new
  let %1 = post(0, call "[T]::sort_by_key"(rv(lv("L0", "v0")), clo('oak_core::parser::state::IncrementalContext::new::{closure#0}', <>)))
case
  if not (n("L0") < len((*$1)))
  if (len(lv("L0", "v0")) < n("L1") + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from vnew()
  do call "[T]::sort_by_key"(rv(lv("L0", "v0")), clo('oak_core::parser::state::IncrementalContext::new::{closure#0}', <>))
  ret new "oak_core::parser::state::IncrementalContext"{cursor: new "oak_core::tree::cursor::Cursor"{current: new "oak_core::tree::green_tree::GreenTree" Node{0: $0}, offset: 0, stack: vnew()}, edits: lv("L1", "v0")}
pass L0
  if (n("L0") < len((*$1)))
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), rv((*$1)[n("L0")]))
pass L1
  if not (len(lv("L0", "v0")) < n("L1") + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from vnew()
  then v0 := vpush(lv("L1", "v0"), tup{0: (*%1[n("L1")]).span, 1: (-(*%1[n("L1")]).span.end + (*%1[n("L1")]).span.start + len((*%1[n("L1")]).text) + sum(j0, 0, n("L1"), (-(*%1[?j0]).span.end + (*%1[?j0]).span.start + len((*%1[?j0]).text))))})

fn oak_core::parser::state::IncrementalContext::new::{closure#0}  [private]
  takes &&oak_core::source::TextEdit
case
  ret (*(*$1)).span.start

fn oak_core::parser::state::ParserState::incremental_node
  given oak_core::parser::state::ParserState::checkpoint
  given oak_core::parser::state::ParserState::finish_at
  given oak_core::parser::state::ParserState::try_reuse
  let %1 = rv(post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1)))
  let %2 = call "core::ops::function::FnOnce::call_once"($2, tup{0: %1})
  let %3 = call "oak_core::parser::state::ParserState::finish_at"(%1, call "oak_core::parser::state::ParserState::checkpoint"(%1), $1)
case
  if true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  set $0 := post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  do call "oak_core::parser::state::ParserState::checkpoint"(%1)
  do %2
  do %3
  set $0 := post(0, %3)
  ret %2

fn oak_core::parser::state::ParserState::incremental_opt
  given oak_core::parser::state::ParserState::checkpoint
  given oak_core::parser::state::ParserState::finish_at
  given oak_core::parser::state::ParserState::try_reuse
  let %1 = rv(post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1)))
  let %2 = call "core::ops::function::FnOnce::call_once"($2, tup{0: %1})
  let %3 = call "oak_core::parser::state::ParserState::finish_at"(%1, call "oak_core::parser::state::ParserState::checkpoint"(%1), $1)
case
  if true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  set $0 := post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  ret new "core::result::Result" Ok{0: 1}
case
  if not true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  if (%2 is Err)
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  do call "oak_core::parser::state::ParserState::checkpoint"(%1)
  do %2
  do %3
  set $0 := post(0, %3)
  ret new "core::result::Result" Err{0: %2@Err.0}
case
  if not true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  if not (%2 is Err)
  if true(%2@Ok.0)
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  do call "oak_core::parser::state::ParserState::checkpoint"(%1)
  do %2
  do %3
  set $0 := post(0, %3)
  ret new "core::result::Result" Ok{0: 1}
case
  if not true(call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  if not (%2 is Err)
  if not true(%2@Ok.0)
  do call "oak_core::parser::state::ParserState::try_reuse"($0, $1)
  do call "oak_core::parser::state::ParserState::checkpoint"(%1)
  do %2
  set $0 := post(0, call "oak_core::parser::state::ParserState::try_reuse"($0, $1))
  ret new "core::result::Result" Ok{0: 0}

fn oak_core::parser::state::ParserState::set_incremental
  given oak_core::parser::state::IncrementalContext::new
case
  do call "oak_core::parser::state::IncrementalContext::new"($1, $2)
  set $0 := ((*$0) with {incremental: new "core::option::Option" Some{0: call "oak_core::parser::state::IncrementalContext::new"($1, $2)}})
  ret tup{}

fn oak_core::parser::state::ParserState::try_reuse
  given oak_core::parser::state::TokenSource::current
  given oak_core::parser::state::TokenSource::index
  given oak_core::parser::state::TokenSource::peek_at
  given oak_core::parser::state::TokenSource::set_index
  given oak_core::parser::state::TreeSink::push_node
  given oak_core::parser::state::deep_clone_node
  given oak_core::tree::cursor::Cursor::as_node
  given oak_core::tree::cursor::Cursor::end_offset
  given oak_core::tree::cursor::Cursor::offset
  given oak_core::tree::cursor::Cursor::step_into
  given oak_core::tree::cursor::Cursor::step_next
  given oak_core::tree::cursor::Cursor::step_over
  given oak_core::tree::green_tree::GreenNode::text_len
  holds (call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) < call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0"))) + 1)
  let %1 = call "oak_core::parser::state::TokenSource::current"(rv((*$0).tokens))
  let %2 = (-(*%1@Some.0).span.start + call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) + lv("L0", "v0"))
  let %3 = (call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) + lv("L0", "v0") == (*%1@Some.0).span.start)
  let %4 = call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))@Some.0
  let %5 = call "oak_core::parser::state::TokenSource::peek_at"(rv((*$0).tokens), n("L2"))
  let %6 = ((*%1@Some.0).span.start - (*%5@Some.0).span.end + call "oak_core::tree::green_tree::GreenNode::text_len"(%4))
  let %7 = ((*%1@Some.0).span.start + call "oak_core::tree::green_tree::GreenNode::text_len"(%4) == (*%5@Some.0).span.end)
  let %8 = call "oak_core::parser::state::TokenSource::index"(rv((*$0).tokens))
  let %9 = call "oak_core::parser::state::deep_clone_node"(%4, (*$0).sink.arena)
  let %10 = call "oak_core::parser::state::TreeSink::push_node"(rv((*$0).sink), %9)
  let %11 = call "oak_core::parser::state::TokenSource::set_index"(rv((*$0).tokens), (%8 + n("L2") + 1))
  let %12 = ((*$0) with {incremental: ((*$0).incremental with {@Some.0: ((*$0).incremental@Some.0 with {cursor: post(0, call "oak_core::tree::cursor::Cursor::step_over"(rv(lv("L1", "v0"))))})}), sink: post(0, %10), tokens: post(0, %11)})
  let %13 = ((*$0).incremental@Some.0.edits[n("L0")].0.start + lv("L0", "v0") < (*%1@Some.0).span.start + 1)
  let %14 = ((*%1@Some.0).span.start < (*$0).incremental@Some.0.edits[n("L0")].0.end + (*$0).incremental@Some.0.edits[n("L0")].1)
  let %15 = ((*%1@Some.0).span.start + call "oak_core::tree::green_tree::GreenNode::text_len"(%4) < (*%5@Some.0).span.end)
  let %16 = call "oak_core::tree::cursor::Cursor::step_next"(rv(post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))))
  let %17 = (call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) < (*$0).incremental@Some.0.edits[n("C0")].0.end)
  let %18 = (call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0"))) < (*$0).incremental@Some.0.edits[n("C0")].0.start + 1)
  let %19 = (call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) + lv("L0", "v0") < (*%1@Some.0).span.start)
  let %20 = (call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0"))) + lv("L0", "v0") < (*%1@Some.0).span.start + 1)
  let %21 = ((*$0) with {incremental: ((*$0).incremental with {@Some.0: ((*$0).incremental@Some.0 with {cursor: post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))})})})
  let %22 = ((*$0) with {incremental: ((*$0).incremental with {@Some.0: ((*$0).incremental@Some.0 with {cursor: post(0, %16)})})})
  let %23 = ((*$0) with {incremental: ((*$0).incremental with {@Some.0: ((*$0).incremental@Some.0 with {cursor: post(0, call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))})})})
  let %24 = ((*$0) with {incremental: ((*$0).incremental with {@Some.0: ((*$0).incremental@Some.0 with {cursor: lv("L1", "v0")})})})
  let %25 = (-call "oak_core::source::Source::length"((*$0).source) + call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) + lv("L0", "v0"))
  let %26 = (call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) + lv("L0", "v0") == call "oak_core::source::Source::length"((*$0).source))
  let %27 = (-(*%5@Some.0).span.end + call "oak_core::source::Source::length"((*$0).source) + call "oak_core::tree::green_tree::GreenNode::text_len"(%4))
  let %28 = (call "oak_core::source::Source::length"((*$0).source) + call "oak_core::tree::green_tree::GreenNode::text_len"(%4) == (*%5@Some.0).span.end)
  let %29 = ((*$0).incremental@Some.0.edits[n("L0")].0.start + lv("L0", "v0") < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %30 = (call "oak_core::source::Source::length"((*$0).source) < (*$0).incremental@Some.0.edits[n("L0")].0.end + (*$0).incremental@Some.0.edits[n("L0")].1)
  let %31 = (call "oak_core::source::Source::length"((*$0).source) + call "oak_core::tree::green_tree::GreenNode::text_len"(%4) < (*%5@Some.0).span.end)
  let %32 = (call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0"))) + lv("L0", "v0") < call "oak_core::source::Source::length"((*$0).source))
  let %33 = (call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0"))) + lv("L0", "v0") < call "oak_core::source::Source::length"((*$0).source) + 1)
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if %7
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do %9
  do %10
  do %11
  do call "oak_core::tree::cursor::Cursor::step_over"(rv(lv("L1", "v0")))
  set $0 := %12
  ret 1
pass L0
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if %13
  if not %14
  loop L0 @0 | v0 from 0
  then v0 := (*$0).incremental@Some.0.edits[n("L0")].1
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if %15
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  loop L2 | v0 from (*%1@Some.0).span.start
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L2
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if not %15
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  loop L2 | v0 from (*%1@Some.0).span.start
  do %5
  then v0 := (*%5@Some.0).span.end
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if %15
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  loop L2 | v0 from (*%1@Some.0).span.start
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  loop L2 | v0 from (*%1@Some.0).span.start
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  loop L2 | v0 from (*%1@Some.0).span.start
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  loop L2 | v0 from (*%1@Some.0).span.start
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  loop L2 | v0 from (*%1@Some.0).span.start
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2,5
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %3
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %3
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if not %3
  if %19
  if %20
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
pass L1
  if not %3
  if %19
  if not %20
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if not %3
  if %19
  if not %20
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if not %3
  if not %19
  if %20
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1,4 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if %15
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if %15
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if %15
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  loop L2 @3 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @2
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %3
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %3
  if %19
  if %20
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %3
  if %19
  if %20
  if not true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %3
  if %19
  if not %20
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %3
  if %19
  if not %20
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %3
  if %19
  if not %20
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %3
  if not %19
  if %20
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %3
  if not %19
  if %20
  if not true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %3
  if not %19
  if not %20
  loop L0 @0 | v0 from 0
  loop L1 @1 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  set $0 := %24
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if %7
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do %9
  do %10
  do %11
  do call "oak_core::tree::cursor::Cursor::step_over"(rv(lv("L1", "v0")))
  set $0 := %12
  ret 1
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if %15
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if %15
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %7
  if %15
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  loop L2 @6 | v0 from (*%1@Some.0).span.start
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @5
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if %3
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if not %3
  if %19
  if %20
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if not %3
  if %19
  if %20
  if not true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if not %3
  if %19
  if not %20
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if not %3
  if %19
  if not %20
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if not %3
  if %19
  if not %20
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if not %3
  if not %19
  if %20
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if not %3
  if not %19
  if %20
  if not true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %13
  if not %3
  if not %19
  if not %20
  loop L0 @0 | v0 from 0
  loop L1 @4 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  set $0 := %24
  ret 0
case
  if ((*$0).incremental is Some)
  if (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if %13
  if %14
  loop L0 @0 | v0 from 0
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if %28
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do %9
  do %10
  do %11
  do call "oak_core::tree::cursor::Cursor::step_over"(rv(lv("L1", "v0")))
  set $0 := %12
  ret 1
pass L0
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if %29
  if not %30
  loop L0 @7 | v0 from 0
  then v0 := (*$0).incremental@Some.0.edits[n("L0")].1
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if %31
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  loop L2 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L2
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if not %31
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  loop L2 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %5
  then v0 := (*%5@Some.0).span.end
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if %31
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  loop L2 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  loop L2 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  loop L2 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  loop L2 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  loop L2 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9,12
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if %26
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if %26
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if not %26
  if %32
  if %33
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
pass L1
  if not %26
  if %32
  if not %33
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
pass L1
  if not %26
  if %32
  if not %33
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  then v0 := post(0, %16)
pass L1
  if not %26
  if not %32
  if %33
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8,11 | v0 from (*$0).incremental@Some.0.cursor
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  then v0 := post(0, call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if %31
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if %31
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if %31
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  loop L2 @10 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @9
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if %26
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %26
  if %32
  if %33
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %26
  if %32
  if %33
  if not true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %26
  if %32
  if not %33
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %26
  if %32
  if not %33
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %26
  if %32
  if not %33
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %26
  if not %32
  if %33
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %26
  if not %32
  if %33
  if not true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if not (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %26
  if not %32
  if not %33
  loop L0 @7 | v0 from 0
  loop L1 @8 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  set $0 := %24
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if %28
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do %9
  do %10
  do %11
  do call "oak_core::tree::cursor::Cursor::step_over"(rv(lv("L1", "v0")))
  set $0 := %12
  ret 1
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if %31
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if %31
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not %28
  if %31
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if (%5 is Some)
  if not ((*%5@Some.0).span.start == lv("L2", "v0"))
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if not (n("C0") < len((*$0).incremental@Some.0.edits))
  if not (%5 is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  loop L2 @13 | v0 from call "oak_core::source::Source::length"((*$0).source)
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::green_tree::GreenNode::text_len"(%4)
  do %5
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if ($1 === (*%4).kind)
  if (n("C0") < len((*$0).incremental@Some.0.edits))
  if %17
  if not %18
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  loop C0 @12
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not ($1 === (*%4).kind)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if %26
  if not (call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0"))) is Some)
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::as_node"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if not %26
  if %32
  if %33
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if not %26
  if %32
  if %33
  if not true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if not %26
  if %32
  if not %33
  if true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  set $0 := %21
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if not %26
  if %32
  if not %33
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if true(%16)
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if not %26
  if %32
  if not %33
  if not true(call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0"))))
  if not true(%16)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_into"(rv(lv("L1", "v0")))
  do %16
  set $0 := %22
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if not %26
  if not %32
  if %33
  if true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  if not (n("L1") < 100)
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if not %26
  if not %32
  if %33
  if not true(call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0"))))
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::step_next"(rv(lv("L1", "v0")))
  set $0 := %23
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if not %29
  if not %26
  if not %32
  if not %33
  loop L0 @7 | v0 from 0
  loop L1 @11 | v0 from (*$0).incremental@Some.0.cursor
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::tree::cursor::Cursor::offset"(rv(lv("L1", "v0")))
  do call "oak_core::tree::cursor::Cursor::end_offset"(rv(lv("L1", "v0")))
  set $0 := %24
  ret 0
case
  if ((*$0).incremental is Some)
  if not (%1 is Some)
  if (n("L0") < len((*$0).incremental@Some.0.edits))
  if %29
  if %30
  loop L0 @7 | v0 from 0
  do %8
  do %1
  do call "oak_core::source::Source::length"((*$0).source)
  ret 0
case
  if not ((*$0).incremental is Some)
  ret 0

fn oak_core::parser::state::TokenSource::advance
case
  set $0 := ((*$0) with {index: ((*$0).index + 1)})
  ret tup{}

fn oak_core::parser::state::TokenSource::current
case
  if ((*$0).index < len((*(*$0).tokens)))
  ret new "core::option::Option" Some{0: rv((*(*$0).tokens)[(*$0).index])}
case
  if not ((*$0).index < len((*(*$0).tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::TokenSource::index
case
  ret (*$0).index

fn oak_core::parser::state::TokenSource::is_end
case
  ret !((*$0).index < len((*(*$0).tokens)))

fn oak_core::parser::state::TokenSource::new
case
  ret new "oak_core::parser::state::TokenSource"{tokens: $0, index: 0}

fn oak_core::parser::state::TokenSource::peek_at
case
  if ($1 + (*$0).index < len((*(*$0).tokens)))
  ret new "core::option::Option" Some{0: rv((*(*$0).tokens)[($1 + (*$0).index)])}
case
  if not ($1 + (*$0).index < len((*(*$0).tokens)))
  ret new "core::option::Option" None{}

fn oak_core::parser::state::TokenSource::set_index
case
  set $0 := ((*$0) with {index: $1})
  ret tup{}

fn oak_core::parser::state::deep_clone_node
  given oak_core::memory::arena::SyntaxArena::alloc
  given oak_core::memory::arena::SyntaxArena::alloc_slice_fill_iter
  given oak_core::tree::green_tree::GreenNode::new
  let %1 = call "oak_core::memory::arena::SyntaxArena::alloc_slice_fill_iter"($1, len((*(*$0).children)), new "it.map"{inner: new "it.slice"{seq: (*$0).children, pos: 0, end: len((*(*$0).children))}, f: clo('oak_core::parser::state::deep_clone_node::{closure#0}', <$1>)})
  let %2 = call "oak_core::tree::green_tree::GreenNode::new"((*$0).kind, %1)
case
  do %1
  do %2
  do call "oak_core::memory::arena::SyntaxArena::alloc"($1, %2)
  ret call "oak_core::memory::arena::SyntaxArena::alloc"($1, %2)

fn oak_core::parser::state::deep_clone_node::{closure#0}  [private]
  takes &oak_core::tree::green_tree::GreenTree<, L>
  given oak_core::parser::state::deep_clone_node
  let %1 = call "oak_core::parser::state::deep_clone_node"((*$1)@Node.0, (*$0).0)
case
  if ((*$1) is Leaf)
  ret new "oak_core::tree::green_tree::GreenTree" Leaf{0: (*$1)@Leaf.0}
case
  if not ((*$1) is Leaf)
  do %1
  ret new "oak_core::tree::green_tree::GreenTree" Node{0: %1}

fn oak_core::tree::cursor::Cursor::as_node
case
  if ((*$0).current is Leaf)
  ret new "core::option::Option" None{}
case
  if not ((*$0).current is Leaf)
  ret new "core::option::Option" Some{0: (*$0).current@Node.0}

fn oak_core::tree::cursor::Cursor::current
case
  ret (*$0).current

fn oak_core::tree::cursor::Cursor::end_offset
case
  if ((*$0).current is Leaf)
  ret ((*$0).current@Leaf.0.length + (*$0).offset)
case
  if not ((*$0).current is Leaf)
  ret ((*$0).offset + (*(*$0).current@Node.0).text_len)

fn oak_core::tree::cursor::Cursor::len
case
  if ((*$0).current is Leaf)
  ret (*$0).current@Leaf.0.length
case
  if not ((*$0).current is Leaf)
  ret (*(*$0).current@Node.0).text_len

fn oak_core::tree::cursor::Cursor::new
case
  ret new "oak_core::tree::cursor::Cursor"{current: new "oak_core::tree::green_tree::GreenTree" Node{0: $0}, offset: 0, stack: vnew()}

fn oak_core::tree::cursor::Cursor::offset
case
  ret (*$0).offset

fn oak_core::tree::cursor::Cursor::step
  let %1 = ((*$0).stack[(len((*$0).stack) - 1)].1 + 1 < len((*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)))
  let %2 = ((*$0) with {current: lv("L0", "v2"), offset: lv("L0", "v0"), stack: lv("L0", "v1")})
  let %3 = new "oak_core::tree::green_tree::GreenTree" Node{0: lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].0}
  let %4 = (*(*vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].0).children)
  let %5 = (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1 < len(%4))
  let %6 = ((*$0) with {current: %4[(vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1)], offset: ((*lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].0).text_len + lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2), stack: iset(vpop(lv("L0", "v1")), (len(lv("L0", "v1")) - 2), (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)] with {1: (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1)}))})
  let %7 = (*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)[((*$0).stack[(len((*$0).stack) - 1)].1 + 1)]
  let %8 = iset((*$0).stack, (len((*$0).stack) - 1), ((*$0).stack[(len((*$0).stack) - 1)] with {1: ((*$0).stack[(len((*$0).stack) - 1)].1 + 1)}))
case
  if ((*$0).current is Leaf)
  if (len((*$0).stack) == 0)
  ret 0
case
  if ((*$0).current is Leaf)
  if not (len((*$0).stack) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  loop L0 @0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := %2
  ret 0
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if (len(lv("L0", "v1")) == 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  then v0 := lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2
  then v1 := vpop(lv("L0", "v1"))
  then v2 := %3
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if not %5
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  then v0 := lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2
  then v1 := vpop(lv("L0", "v1"))
  then v2 := %3
case
  if ((*$0).current is Leaf)
  if not (len((*$0).stack) == 0)
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if %5
  loop L0 @0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := %6
  ret 1
case
  if ((*$0).current is Leaf)
  if not (len((*$0).stack) == 0)
  if %1
  set $0 := ((*$0) with {current: %7, offset: ((*$0).current@Leaf.0.length + (*$0).offset), stack: %8})
  ret 1
case
  if not ((*$0).current is Leaf)
  if not (len((*(*(*$0).current@Node.0).children)) == 0)
  set $0 := ((*$0) with {current: (*(*(*$0).current@Node.0).children)[0], stack: vpush((*$0).stack, tup{0: (*$0).current@Node.0, 1: 0, 2: (*$0).offset})})
  ret 1
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  if (len((*$0).stack) == 0)
  ret 0
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  if not (len((*$0).stack) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  loop L0 @1 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := %2
  ret 0
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  if not (len((*$0).stack) == 0)
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if %5
  loop L0 @1 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := %6
  ret 1
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  if not (len((*$0).stack) == 0)
  if %1
  set $0 := ((*$0) with {current: %7, offset: ((*$0).offset + (*(*$0).current@Node.0).text_len), stack: %8})
  ret 1

fn oak_core::tree::cursor::Cursor::step_into
case
  if ((*$0).current is Leaf)
  ret 0
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  ret 0
case
  if not ((*$0).current is Leaf)
  if not (len((*(*(*$0).current@Node.0).children)) == 0)
  set $0 := ((*$0) with {current: (*(*(*$0).current@Node.0).children)[0], stack: vpush((*$0).stack, tup{0: (*$0).current@Node.0, 1: 0, 2: (*$0).offset})})
  ret 1

fn oak_core::tree::cursor::Cursor::step_next
  let %1 = ((*$0).stack[(len((*$0).stack) - 1)].1 + 1 < len((*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)))
  let %2 = new "oak_core::tree::green_tree::GreenTree" Node{0: lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].0}
  let %3 = (*(*vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].0).children)
  let %4 = (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1 < len(%3))
  let %5 = (*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)[((*$0).stack[(len((*$0).stack) - 1)].1 + 1)]
  let %6 = iset((*$0).stack, (len((*$0).stack) - 1), ((*$0).stack[(len((*$0).stack) - 1)] with {1: ((*$0).stack[(len((*$0).stack) - 1)].1 + 1)}))
case
  if (len((*$0).stack) == 0)
  ret 0
case
  if not (len((*$0).stack) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := ((*$0) with {current: lv("L0", "v2"), offset: lv("L0", "v0"), stack: lv("L0", "v1")})
  ret 0
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if (len(lv("L0", "v1")) == 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  then v0 := lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2
  then v1 := vpop(lv("L0", "v1"))
  then v2 := %2
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if not %4
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  then v0 := lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2
  then v1 := vpop(lv("L0", "v1"))
  then v2 := %2
case
  if not (len((*$0).stack) == 0)
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if %4
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := ((*$0) with {current: %3[(vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1)], offset: ((*lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].0).text_len + lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2), stack: iset(vpop(lv("L0", "v1")), (len(lv("L0", "v1")) - 2), (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)] with {1: (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1)}))})
  ret 1
case
  if not (len((*$0).stack) == 0)
  if %1
  if not ((*$0).current is Leaf)
  set $0 := ((*$0) with {current: %5, offset: ((*$0).offset + (*(*$0).current@Node.0).text_len), stack: %6})
  ret 1
case
  if not (len((*$0).stack) == 0)
  if %1
  if ((*$0).current is Leaf)
  set $0 := ((*$0) with {current: %5, offset: ((*$0).current@Leaf.0.length + (*$0).offset), stack: %6})
  ret 1

fn oak_core::tree::cursor::Cursor::step_out
case
  if (len((*$0).stack) == 0)
  ret 0
case
  if not (len((*$0).stack) == 0)
  set $0 := ((*$0) with {current: new "oak_core::tree::green_tree::GreenTree" Node{0: (*$0).stack[(len((*$0).stack) - 1)].0}, offset: (*$0).stack[(len((*$0).stack) - 1)].2, stack: vpop((*$0).stack)})
  ret 1

fn oak_core::tree::cursor::Cursor::step_over
  let %1 = ((*$0).stack[(len((*$0).stack) - 1)].1 + 1 < len((*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)))
  let %2 = (*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)[((*$0).stack[(len((*$0).stack) - 1)].1 + 1)]
  let %3 = iset((*$0).stack, (len((*$0).stack) - 1), ((*$0).stack[(len((*$0).stack) - 1)] with {1: ((*$0).stack[(len((*$0).stack) - 1)].1 + 1)}))
case
  if (len((*$0).stack) == 0)
  ret 0
case
  if not (len((*$0).stack) == 0)
  if %1
  if ((*$0).current is Leaf)
  set $0 := ((*$0) with {current: %2, offset: ((*$0).current@Leaf.0.length + (*$0).offset), stack: %3})
  ret 1
case
  if not (len((*$0).stack) == 0)
  if %1
  if not ((*$0).current is Leaf)
  set $0 := ((*$0) with {current: %2, offset: ((*$0).offset + (*(*$0).current@Node.0).text_len), stack: %3})
  ret 1
case
  if not (len((*$0).stack) == 0)
  if not %1
  ret 0
