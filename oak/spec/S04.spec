fn <alloc::string::String as core::convert::From<oak_core::source::buffer::SourceBuffer>>::from
case
  ret $0.inner

fn <oak_core::source::buffer::SourceBuffer as core::fmt::Display>::fmt
case
  set $1 := cat(<(*$1), (*$0).inner>)
  ret new "core::result::Result" Ok{0: tup{}}

fn oak_core::source::buffer::SourceBuffer::finish
case
  ret $0.inner

fn oak_core::source::buffer::SourceBuffer::is_word_char  [private]
  takes &oak_core::source::buffer::SourceBuffer; core::option::Option<char>
case
  if ($1 is Some)
  if true(call "char::is_alphanumeric"($1@Some.0))
  do call "char::is_alphanumeric"($1@Some.0)
  ret 1
case
  if not ($1 is Some)
  ret 0
case
  if ($1 is Some)
  if not true(call "char::is_alphanumeric"($1@Some.0))
  do call "char::is_alphanumeric"($1@Some.0)
  ret ($1@Some.0 == 95)

fn oak_core::source::buffer::SourceBuffer::new
case
  ret new "oak_core::source::buffer::SourceBuffer"{inner: "", last_char: new "core::option::Option" None{}}

fn oak_core::source::buffer::SourceBuffer::push
  let %1 = call "<core::str::iter::Chars as core::iter::traits::iterator::Iterator>::last"(new "it.own"{seq: call "str::chars"($1), pos: 0, end: len(call "str::chars"($1))})
  let %2 = ((*$0) with {inner: cat(<(*$0).inner, " ", $1>), last_char: %1})
case
  if (len(call "str::chars"($1)) < 1)
  ret tup{}
case
  if not (len(call "str::chars"($1)) < 1)
  if ((*$0).last_char is Some)
  if true(call "char::is_alphanumeric"((*$0).last_char@Some.0))
  if true(call "char::is_alphanumeric"(call "str::chars"($1)[0]))
  do call "char::is_alphanumeric"((*$0).last_char@Some.0)
  do call "char::is_alphanumeric"(call "str::chars"($1)[0])
  do %1
  set $0 := %2
  ret tup{}
case
  if not (len(call "str::chars"($1)) < 1)
  if ((*$0).last_char is Some)
  if true(call "char::is_alphanumeric"((*$0).last_char@Some.0))
  if not true(call "char::is_alphanumeric"(call "str::chars"($1)[0]))
  if (call "str::chars"($1)[0] == 95)
  do call "char::is_alphanumeric"((*$0).last_char@Some.0)
  do call "char::is_alphanumeric"(call "str::chars"($1)[0])
  do %1
  set $0 := %2
  ret tup{}
case
  if not (len(call "str::chars"($1)) < 1)
  if ((*$0).last_char is Some)
  if true(call "char::is_alphanumeric"((*$0).last_char@Some.0))
  if not true(call "char::is_alphanumeric"(call "str::chars"($1)[0]))
  if not (call "str::chars"($1)[0] == 95)
  do call "char::is_alphanumeric"((*$0).last_char@Some.0)
  do call "char::is_alphanumeric"(call "str::chars"($1)[0])
  do %1
  set $0 := ((*$0) with {inner: cat(<(*$0).inner, $1>), last_char: %1})
  ret tup{}
case
  if not (len(call "str::chars"($1)) < 1)
  if ((*$0).last_char is Some)
  if not true(call "char::is_alphanumeric"((*$0).last_char@Some.0))
  if ((*$0).last_char@Some.0 == 95)
  if true(call "char::is_alphanumeric"(call "str::chars"($1)[0]))
  do call "char::is_alphanumeric"((*$0).last_char@Some.0)
  do call "char::is_alphanumeric"(call "str::chars"($1)[0])
  do %1
  set $0 := %2
  ret tup{}
case
  if not (len(call "str::chars"($1)) < 1)
  if ((*$0).last_char is Some)
  if not true(call "char::is_alphanumeric"((*$0).last_char@Some.0))
  if ((*$0).last_char@Some.0 == 95)
  if not true(call "char::is_alphanumeric"(call "str::chars"($1)[0]))
  if (call "str::chars"($1)[0] == 95)
  do call "char::is_alphanumeric"((*$0).last_char@Some.0)
  do call "char::is_alphanumeric"(call "str::chars"($1)[0])
  do %1
  set $0 := %2
  ret tup{}
case
  if not (len(call "str::chars"($1)) < 1)
  if ((*$0).last_char is Some)
  if not true(call "char::is_alphanumeric"((*$0).last_char@Some.0))
  if ((*$0).last_char@Some.0 == 95)
  if not true(call "char::is_alphanumeric"(call "str::chars"($1)[0]))
  if not (call "str::chars"($1)[0] == 95)
  do call "char::is_alphanumeric"((*$0).last_char@Some.0)
  do call "char::is_alphanumeric"(call "str::chars"($1)[0])
  do %1
  set $0 := ((*$0) with {inner: cat(<(*$0).inner, $1>), last_char: %1})
  ret tup{}
case
  if not (len(call "str::chars"($1)) < 1)
  if ((*$0).last_char is Some)
  if not true(call "char::is_alphanumeric"((*$0).last_char@Some.0))
  if not ((*$0).last_char@Some.0 == 95)
  do call "char::is_alphanumeric"((*$0).last_char@Some.0)
  do %1
  set $0 := ((*$0) with {inner: cat(<(*$0).inner, $1>), last_char: %1})
  ret tup{}
case
  if not (len(call "str::chars"($1)) < 1)
  if not ((*$0).last_char is Some)
  do %1
  set $0 := ((*$0) with {inner: cat(<(*$0).inner, $1>), last_char: %1})
  ret tup{}

fn oak_core::source::buffer::ToSource::to_source_string
  let %1 = call "oak_core::source::buffer::ToSource::to_source"($0, rv(new "oak_core::source::buffer::SourceBuffer"{inner: "", last_char: new "core::option::Option" None{}}))
case
  do %1
  ret post(1, %1).inner

fn oak_core::source::rope::RopeBuffer::apply_edits
  given oak_core::source::rope::RopeBuffer::apply_edits_range
case
  do call "oak_core::source::rope::RopeBuffer::apply_edits_range"($0, $1)
  set $0 := post(0, call "oak_core::source::rope::RopeBuffer::apply_edits_range"($0, $1))
  ret call "oak_core::source::rope::RopeBuffer::apply_edits_range"($0, $1).start

fn oak_core::source::rope::RopeBuffer::apply_edits_range
  given oak_core::source::rope::RopeBuffer::replace_range
  let %1 = call "[T]::sort_by_key"(rv(lv("L0", "v0")), clo('oak_core::source::rope::RopeBuffer::apply_edits_range::{closure#0}', <$1>))
  let %2 = call "oak_core::source::rope::RopeBuffer::replace_range"(rv(lv("L2", "v0")), new "range"{start: (*$1)[post(0, %1)[(lv("L2", "v1") - 1)]].span.start, end: (*$1)[post(0, %1)[(lv("L2", "v1") - 1)]].span.end}, rv((*$1)[post(0, %1)[(lv("L2", "v1") - 1)]].text))
case
  if (len((*$1)) == 0)
  ret new "range"{start: (*$0).len, end: (*$0).len}
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if (len(lv("L0", "v0")) < n("L1") + 1)
  if (lv("L2", "v1") < 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from (*$0).len
  loop L2 | v0 from (*$0) | v1 from len(lv("L0", "v0"))
  do %1
  set $0 := lv("L2", "v0")
  ret new "range"{start: lv("L1", "v1"), end: lv("L1", "v0")}
pass L0
  if not (len((*$1)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), n("L0"))
pass L1
  if not (len(lv("L0", "v0")) < n("L1") + 1)
  if not (len((*$1)) < post(0, %1)[n("L1")] + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from (*$0).len
  then v0 := max(lv("L1", "v0"), ((*$1)[post(0, %1)[n("L1")]].span.start + len((*$1)[post(0, %1)[n("L1")]].text) + sum(j0, 0, n("L1"), (-(*$1)[post(0, %1)[?j0]].span.end + (*$1)[post(0, %1)[?j0]].span.start + len((*$1)[post(0, %1)[?j0]].text)))))
  then v1 := min((*$1)[post(0, %1)[n("L1")]].span.start, lv("L1", "v1"))
pass L2
  if not (lv("L2", "v1") < 1)
  if not (len((*$1)) < post(0, %1)[(lv("L2", "v1") - 1)] + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from (*$0).len
  loop L2 | v0 from (*$0) | v1 from len(lv("L0", "v0"))
  do %2
  then v0 := post(0, %2)
  then v1 := (lv("L2", "v1") - 1)
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if (len(lv("L0", "v0")) < n("L1") + 1)
  if not (lv("L2", "v1") < 1)
  if (len((*$1)) < post(0, %1)[(lv("L2", "v1") - 1)] + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from (*$0).len
  loop L2 | v0 from (*$0) | v1 from len(lv("L0", "v0"))
  panics
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if not (len(lv("L0", "v0")) < n("L1") + 1)
  if (len((*$1)) < post(0, %1)[n("L1")] + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from (*$0).len
  panics

fn oak_core::source::rope::RopeBuffer::apply_edits_range::{closure#0}  [private]
  takes &usize
case
  if not ((*$1) < len((*(*$0).0)))
  panics
case
  if ((*$1) < len((*(*$0).0)))
  ret (*(*$0).0)[(*$1)].span.start

fn oak_core::source::rope::RopeBuffer::boundary_index  [private]
  takes &oak_core::source::rope::RopeBuffer; usize
  holds (len((*$0).chunks) == len((*$0).starts))
case
  if ((*$0).len < $1 + 1)
  ret len((*$0).chunks)
case
  if not ((*$0).len < $1 + 1)
  if (call "[T]::binary_search"(rv((*$0).starts), rv($1)) is Err)
  do call "[T]::binary_search"(rv((*$0).starts), rv($1))
  ret call "[T]::binary_search"(rv((*$0).starts), rv($1))@Err.0
case
  if not ((*$0).len < $1 + 1)
  if not (call "[T]::binary_search"(rv((*$0).starts), rv($1)) is Err)
  do call "[T]::binary_search"(rv((*$0).starts), rv($1))
  ret call "[T]::binary_search"(rv((*$0).starts), rv($1))@Ok.0

fn oak_core::source::rope::RopeBuffer::chunk_index  [private]
  takes &oak_core::source::rope::RopeBuffer; usize
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = call "[T]::binary_search"(rv((*$0).starts), rv(min(max0(((*$0).len - 1)), $1)))
case
  if (%1 is Err)
  if (%1@Err.0 == 0)
  do %1
  ret tup{0: 0, 1: 0}
case
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if not (len((*$0).starts) < %1@Err.0)
  do %1
  ret tup{0: (%1@Err.0 - 1), 1: (*$0).starts[(%1@Err.0 - 1)]}
case
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  do %1
  ret tup{0: %1@Ok.0, 1: (*$0).starts[%1@Ok.0]}

fn oak_core::source::rope::RopeBuffer::replace_range  [private]
  takes &mut oak_core::source::rope::RopeBuffer; core::range::Range<usize>; &str
  given oak_core::source::rope::RopeBuffer::boundary_index
  given oak_core::source::rope::RopeBuffer::split_at
  given oak_core::source::rope::chunkify
  given oak_core::source::rope::rebuild_starts
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = call "oak_core::source::rope::RopeBuffer::split_at"($0, min((*$0).len, $1.start))
  let %2 = call "oak_core::source::rope::RopeBuffer::split_at"(rv(post(0, %1)), max(min((*$0).len, $1.end), min((*$0).len, $1.start)))
  let %3 = call "oak_core::source::rope::RopeBuffer::boundary_index"(rv(post(0, %2)), min((*$0).len, $1.start))
  let %4 = call "oak_core::source::rope::RopeBuffer::boundary_index"(rv(post(0, %2)), max(min((*$0).len, $1.end), min((*$0).len, $1.start)))
  let %5 = call "alloc::vec::Vec::drain"(rv(post(0, %2).chunks), new "range"{start: %3, end: %4})
  let %6 = call "oak_core::source::rope::rebuild_starts"(rv(post(0, %5)))
  let %7 = call "alloc::vec::Vec::splice"(rv(post(0, %5)), new "range"{start: min(%3, len(post(0, %5))), end: min(%3, len(post(0, %5)))}, call "oak_core::source::rope::chunkify"($2))
  let %8 = call "oak_core::source::rope::rebuild_starts"(rv(post(0, %7)))
  let %9 = call "oak_core::source::rope::rebuild_starts"(rv(post(0, %2).chunks))
  let %10 = call "alloc::vec::Vec::splice"(rv(post(0, %2).chunks), new "range"{start: min(%3, len(post(0, %2).chunks)), end: min(%3, len(post(0, %2).chunks))}, call "oak_core::source::rope::chunkify"($2))
  let %11 = call "oak_core::source::rope::rebuild_starts"(rv(post(0, %10)))
case
  if (%3 < %4)
  if (len((*$2)) == 0)
  do %1
  do %2
  do %3
  do %4
  do %5
  do %6
  set $0 := (post(0, %2) with {chunks: post(0, %5), len: %6.1, starts: %6.0})
  ret tup{}
case
  if (%3 < %4)
  if not (len((*$2)) == 0)
  do %1
  do %2
  do %3
  do %4
  do %5
  do call "oak_core::source::rope::chunkify"($2)
  do %7
  do %8
  set $0 := (post(0, %2) with {chunks: post(0, %7), len: %8.1, starts: %8.0})
  ret tup{}
case
  if not (%3 < %4)
  if (len((*$2)) == 0)
  do %1
  do %2
  do %3
  do %4
  do %9
  set $0 := (post(0, %2) with {len: %9.1, starts: %9.0})
  ret tup{}
case
  if not (%3 < %4)
  if not (len((*$2)) == 0)
  do %1
  do %2
  do %3
  do %4
  do call "oak_core::source::rope::chunkify"($2)
  do %10
  do %11
  set $0 := (post(0, %2) with {chunks: post(0, %10), len: %11.1, starts: %11.0})
  ret tup{}

fn oak_core::source::rope::RopeBuffer::split_at  [private]
  takes &mut oak_core::source::rope::RopeBuffer; usize
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = call "[T]::binary_search"(rv((*$0).starts), rv(min(max0(((*$0).len - 1)), $1)))
  let %2 = true(validrange((*(*$0).chunks[0]), $1, len((*(*$0).chunks[0]))))
  let %3 = call "alloc::vec::Vec::insert"(rv(iset((*$0).chunks, 0, slice((*(*$0).chunks[0]), 0, $1))), 1, slice((*(*$0).chunks[0]), $1, len((*(*$0).chunks[0]))))
  let %4 = true(validrange((*(*$0).chunks[%1@Ok.0]), 0, ($1 - (*$0).starts[%1@Ok.0])))
  let %5 = true(validrange((*(*$0).chunks[%1@Ok.0]), ($1 - (*$0).starts[%1@Ok.0]), len((*(*$0).chunks[%1@Ok.0]))))
  let %6 = call "alloc::vec::Vec::insert"(rv(iset((*$0).chunks, %1@Ok.0, slice((*(*$0).chunks[%1@Ok.0]), 0, ($1 - (*$0).starts[%1@Ok.0])))), (%1@Ok.0 + 1), slice((*(*$0).chunks[%1@Ok.0]), ($1 - (*$0).starts[%1@Ok.0]), len((*(*$0).chunks[%1@Ok.0]))))
  let %7 = ($1 < (*$0).starts[(%1@Err.0 - 1)] + len((*(*$0).chunks[(%1@Err.0 - 1)])))
  let %8 = true(validrange((*(*$0).chunks[(%1@Err.0 - 1)]), 0, ($1 - (*$0).starts[(%1@Err.0 - 1)])))
  let %9 = true(validrange((*(*$0).chunks[(%1@Err.0 - 1)]), ($1 - (*$0).starts[(%1@Err.0 - 1)]), len((*(*$0).chunks[(%1@Err.0 - 1)]))))
  let %10 = call "alloc::vec::Vec::insert"(rv(iset((*$0).chunks, (%1@Err.0 - 1), slice((*(*$0).chunks[(%1@Err.0 - 1)]), 0, ($1 - (*$0).starts[(%1@Err.0 - 1)])))), %1@Err.0, slice((*(*$0).chunks[(%1@Err.0 - 1)]), ($1 - (*$0).starts[(%1@Err.0 - 1)]), len((*(*$0).chunks[(%1@Err.0 - 1)]))))
case
  if ($1 == 0)
  ret tup{}
case
  if not ($1 == 0)
  if ((*$0).len < $1 + 1)
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  if (len((*(*$0).chunks[0])) < $1 + 1)
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  if not (len((*(*$0).chunks[0])) < $1 + 1)
  if true(validrange((*(*$0).chunks[0]), 0, $1))
  if %2
  if not (n("L0") < len(post(0, %3)))
  loop L0 @0 | v0 from vnew()
  do %1
  do %3
  set $0 := ((*$0) with {chunks: post(0, %3), len: sum(j0, 0, len(post(0, %3)), len((*post(0, %3)[?j0]))), starts: lv("L0", "v0")})
  ret tup{}
pass L0
  if (n("L0") < len(post(0, %3)))
  loop L0 @0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), sum(j0, 0, n("L0"), len((*post(0, %3)[?j0]))))
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  if not (len((*(*$0).chunks[0])) < $1 + 1)
  if true(validrange((*(*$0).chunks[0]), 0, $1))
  if not %2
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  if not (len((*(*$0).chunks[0])) < $1 + 1)
  if not true(validrange((*(*$0).chunks[0]), 0, $1))
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if not (len((*$0).chunks) < %1@Ok.0 + 1)
  if ($1 == (*$0).starts[%1@Ok.0])
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if not (len((*$0).chunks) < %1@Ok.0 + 1)
  if not ($1 == (*$0).starts[%1@Ok.0])
  if ($1 < (*$0).starts[%1@Ok.0] + len((*(*$0).chunks[%1@Ok.0])))
  if %4
  if %5
  if not (n("L0") < len(post(0, %6)))
  loop L0 @1 | v0 from vnew()
  do %1
  do %6
  set $0 := ((*$0) with {chunks: post(0, %6), len: sum(j0, 0, len(post(0, %6)), len((*post(0, %6)[?j0]))), starts: lv("L0", "v0")})
  ret tup{}
pass L0
  if (n("L0") < len(post(0, %6)))
  loop L0 @1 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), sum(j0, 0, n("L0"), len((*post(0, %6)[?j0]))))
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if not (len((*$0).chunks) < %1@Ok.0 + 1)
  if not ($1 == (*$0).starts[%1@Ok.0])
  if ($1 < (*$0).starts[%1@Ok.0] + len((*(*$0).chunks[%1@Ok.0])))
  if %4
  if not %5
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if not (len((*$0).chunks) < %1@Ok.0 + 1)
  if not ($1 == (*$0).starts[%1@Ok.0])
  if ($1 < (*$0).starts[%1@Ok.0] + len((*(*$0).chunks[%1@Ok.0])))
  if not %4
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if not (len((*$0).chunks) < %1@Ok.0 + 1)
  if not ($1 == (*$0).starts[%1@Ok.0])
  if not ($1 < (*$0).starts[%1@Ok.0] + len((*(*$0).chunks[%1@Ok.0])))
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if not (len((*$0).starts) < %1@Err.0)
  if not (len((*$0).chunks) < %1@Err.0)
  if ($1 == (*$0).starts[(%1@Err.0 - 1)])
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if not (len((*$0).starts) < %1@Err.0)
  if not (len((*$0).chunks) < %1@Err.0)
  if not ($1 == (*$0).starts[(%1@Err.0 - 1)])
  if %7
  if %8
  if %9
  if not (n("L0") < len(post(0, %10)))
  loop L0 @2 | v0 from vnew()
  do %1
  do %10
  set $0 := ((*$0) with {chunks: post(0, %10), len: sum(j0, 0, len(post(0, %10)), len((*post(0, %10)[?j0]))), starts: lv("L0", "v0")})
  ret tup{}
pass L0
  if (n("L0") < len(post(0, %10)))
  loop L0 @2 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), sum(j0, 0, n("L0"), len((*post(0, %10)[?j0]))))
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if not (len((*$0).starts) < %1@Err.0)
  if not (len((*$0).chunks) < %1@Err.0)
  if not ($1 == (*$0).starts[(%1@Err.0 - 1)])
  if %7
  if %8
  if not %9
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if not (len((*$0).starts) < %1@Err.0)
  if not (len((*$0).chunks) < %1@Err.0)
  if not ($1 == (*$0).starts[(%1@Err.0 - 1)])
  if %7
  if not %8
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ((*$0).len < $1 + 1)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if not (len((*$0).starts) < %1@Err.0)
  if not (len((*$0).chunks) < %1@Err.0)
  if not ($1 == (*$0).starts[(%1@Err.0 - 1)])
  if not %7
  do %1
  ret tup{}

fn oak_core::source::rope::rebuild_starts  [private]
  takes &[triomphe::arc::Arc<str>]
case
  if not (n("L0") < len((*$0)))
  loop L0 | v0 from vnew()
  ret tup{0: lv("L0", "v0"), 1: sum(j0, 0, len((*$0)), len((*(*$0)[?j0])))}
pass L0
  if (n("L0") < len((*$0)))
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), sum(j0, 0, n("L0"), len((*(*$0)[?j0]))))

fn oak_core::source::text::SourceText::apply_edits
  given oak_core::source::text::SourceText::apply_edits_range
case
  do call "oak_core::source::text::SourceText::apply_edits_range"($0, $1)
  set $0 := post(0, call "oak_core::source::text::SourceText::apply_edits_range"($0, $1))
  ret call "oak_core::source::text::SourceText::apply_edits_range"($0, $1).start

fn oak_core::source::text::SourceText::apply_edits_range
  let %1 = call "[T]::sort_by_key"(rv(lv("L0", "v0")), clo('oak_core::source::text::SourceText::apply_edits_range::{closure#0}', <$1>))
  let %2 = call "alloc::string::String::replace_range"(rv(lv("L2", "v1")), new "range"{start: (*$1)[post(0, %1)[(lv("L2", "v0") - 1)]].span.start, end: (*$1)[post(0, %1)[(lv("L2", "v0") - 1)]].span.end}, rv((*$1)[post(0, %1)[(lv("L2", "v0") - 1)]].text))
case
  if (len((*$1)) == 0)
  ret new "range"{start: len((*(*$0).raw)), end: len((*(*$0).raw))}
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if (len(lv("L0", "v0")) < n("L1") + 1)
  if (lv("L2", "v0") < 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from len((*(*$0).raw))
  loop L2 | v0 from len(lv("L0", "v0")) | v1 from (*$0).raw
  do %1
  set $0 := ((*$0) with {raw: lv("L2", "v1")})
  ret new "range"{start: lv("L1", "v1"), end: lv("L1", "v0")}
pass L0
  if not (len((*$1)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), n("L0"))
pass L1
  if not (len(lv("L0", "v0")) < n("L1") + 1)
  if not (len((*$1)) < post(0, %1)[n("L1")] + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from len((*(*$0).raw))
  then v0 := max(lv("L1", "v0"), ((*$1)[post(0, %1)[n("L1")]].span.start + len((*$1)[post(0, %1)[n("L1")]].text) + sum(j0, 0, n("L1"), (-(*$1)[post(0, %1)[?j0]].span.end + (*$1)[post(0, %1)[?j0]].span.start + len((*$1)[post(0, %1)[?j0]].text)))))
  then v1 := min(lv("L1", "v1"), (*$1)[post(0, %1)[n("L1")]].span.start)
pass L2
  if not (lv("L2", "v0") < 1)
  if not (len((*$1)) < post(0, %1)[(lv("L2", "v0") - 1)] + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from len((*(*$0).raw))
  loop L2 | v0 from len(lv("L0", "v0")) | v1 from (*$0).raw
  do %2
  then v0 := (lv("L2", "v0") - 1)
  then v1 := post(0, %2)
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if (len(lv("L0", "v0")) < n("L1") + 1)
  if not (lv("L2", "v0") < 1)
  if (len((*$1)) < post(0, %1)[(lv("L2", "v0") - 1)] + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from len((*(*$0).raw))
  loop L2 | v0 from len(lv("L0", "v0")) | v1 from (*$0).raw
  panics
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if not (len(lv("L0", "v0")) < n("L1") + 1)
  if (len((*$1)) < post(0, %1)[n("L1")] + 1)
  loop L0 | v0 from vnew()
  loop L1 | v0 from 0 | v1 from len((*(*$0).raw))
  panics

fn oak_core::source::text::SourceText::apply_edits_range::{closure#0}  [private]
  takes &usize
case
  if not ((*$1) < len((*(*$0).0)))
  panics
case
  if ((*$1) < len((*(*$0).0)))
  ret (*(*$0).0)[(*$1)].span.start
