fn oak_core::source::cursor::SourceCursor::advance_byte
  given oak_core::source::cursor::SourceCursor::peek_byte
case
  if (call "oak_core::source::cursor::SourceCursor::peek_byte"($0) is Some)
  do call "oak_core::source::cursor::SourceCursor::peek_byte"($0)
  set $0 := ((*$0) with {offset: ((*$0).offset + 1)})
  ret new "core::option::Option" Some{0: call "oak_core::source::cursor::SourceCursor::peek_byte"($0)@Some.0}
case
  if not (call "oak_core::source::cursor::SourceCursor::peek_byte"($0) is Some)
  do call "oak_core::source::cursor::SourceCursor::peek_byte"($0)
  ret new "core::option::Option" None{}

fn oak_core::source::cursor::SourceCursor::advance_bytes
  let %1 = min(call "oak_core::source::Source::length"((*$0).source), ($1 + (*$0).offset))
  let %2 = ((*$0).chunk.start < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %3 = ((*$0).chunk.start - call "oak_core::source::Source::length"((*$0).source) + len((*(*$0).chunk.text)))
  let %4 = ((*$0).chunk.start + len((*(*$0).chunk.text)) < call "oak_core::source::Source::length"((*$0).source))
  let %5 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %6 = call "str::is_char_boundary"(%5.text, (-%5.start + call "oak_core::source::Source::length"((*$0).source) + n("C0")))
  let %7 = (call "oak_core::source::Source::length"((*$0).source) + n("C0"))
  let %8 = call "str::is_char_boundary"(call "oak_core::source::Source::chunk_at"((*$0).source, %1).text, (%1 - call "oak_core::source::Source::chunk_at"((*$0).source, %1).start + n("C0")))
  let %9 = ((*$0) with {chunk: call "oak_core::source::Source::chunk_at"((*$0).source, %1), offset: (%1 + n("C0"))})
  let %10 = call "str::is_char_boundary"((*$0).chunk.text, (%1 - (*$0).chunk.start + n("C0")))
  let %11 = (call "oak_core::source::Source::length"((*$0).source) < %1 + 1)
  let %12 = ((*$0).chunk.start + len((*(*$0).chunk.text)) == call "oak_core::source::Source::length"((*$0).source))
  let %13 = call "str::is_char_boundary"((*$0).chunk.text, (-(*$0).chunk.start + call "oak_core::source::Source::length"((*$0).source) + n("C0")))
case
  if (call "oak_core::source::Source::length"((*$0).source) < %1)
  if %2
  if %4
  if true(%6)
  loop C0 @0
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  do %6
  set $0 := ((*$0) with {chunk: %5, offset: %7})
  ret %7
pass C0
  if not true(%6)
  loop C0 @0,1
  do %6
case
  if not (call "oak_core::source::Source::length"((*$0).source) < %1)
  if not ((*$0).chunk.start < %1 + 1)
  if true(%8)
  loop C0 @2
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::chunk_at"((*$0).source, %1)
  do %8
  set $0 := %9
  ret (%1 + n("C0"))
pass C0
  if not true(%8)
  loop C0 @2,3,4
  do %8
case
  if not (call "oak_core::source::Source::length"((*$0).source) < %1)
  if ((*$0).chunk.start < %1 + 1)
  if not ((*$0).chunk.start + len((*(*$0).chunk.text)) < %1)
  if not ((*$0).chunk.start + len((*(*$0).chunk.text)) == %1)
  if true(%10)
  loop C0 @5
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  set $0 := ((*$0) with {offset: (%1 + n("C0"))})
  ret (%1 + n("C0"))
pass C0
  if not true(%10)
  loop C0 @5,6
  do %10
case
  if not (call "oak_core::source::Source::length"((*$0).source) < %1)
  if ((*$0).chunk.start < %1 + 1)
  if not ((*$0).chunk.start + len((*(*$0).chunk.text)) < %1)
  if ((*$0).chunk.start + len((*(*$0).chunk.text)) == %1)
  if not %11
  if true(%8)
  loop C0 @3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::chunk_at"((*$0).source, %1)
  do %8
  set $0 := %9
  ret (%1 + n("C0"))
case
  if not (call "oak_core::source::Source::length"((*$0).source) < %1)
  if ((*$0).chunk.start < %1 + 1)
  if not ((*$0).chunk.start + len((*(*$0).chunk.text)) < %1)
  if ((*$0).chunk.start + len((*(*$0).chunk.text)) == %1)
  if %11
  if true(%10)
  loop C0 @6
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  set $0 := ((*$0) with {offset: (%1 + n("C0"))})
  ret (%1 + n("C0"))
case
  if not (call "oak_core::source::Source::length"((*$0).source) < %1)
  if ((*$0).chunk.start < %1 + 1)
  if ((*$0).chunk.start + len((*(*$0).chunk.text)) < %1)
  if true(%8)
  loop C0 @4
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::chunk_at"((*$0).source, %1)
  do %8
  set $0 := %9
  ret (%1 + n("C0"))
case
  if (call "oak_core::source::Source::length"((*$0).source) < %1)
  if not %2
  if true(%6)
  loop C0 @1
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  do %6
  set $0 := ((*$0) with {chunk: %5, offset: %7})
  ret %7
case
  if (call "oak_core::source::Source::length"((*$0).source) < %1)
  if %2
  if not %4
  if not %12
  if true(%13)
  loop C0 @7
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do %13
  set $0 := ((*$0) with {offset: %7})
  ret %7
pass C0
  if not true(%13)
  loop C0 @7,8
  do %13
case
  if (call "oak_core::source::Source::length"((*$0).source) < %1)
  if %2
  if not %4
  if %12
  if true(%13)
  loop C0 @8
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  do %13
  set $0 := ((*$0) with {offset: %7})
  ret %7

fn oak_core::source::cursor::SourceCursor::advance_char
  given oak_core::source::cursor::SourceCursor::advance_bytes
  given oak_core::source::cursor::SourceCursor::peek_char
  let %1 = call "char::len_utf8"(call "oak_core::source::cursor::SourceCursor::peek_char"($0)@Some.0)
  let %2 = call "oak_core::source::cursor::SourceCursor::advance_bytes"($0, %1)
case
  if (call "oak_core::source::cursor::SourceCursor::peek_char"($0) is Some)
  do call "oak_core::source::cursor::SourceCursor::peek_char"($0)
  do %1
  do %2
  set $0 := post(0, %2)
  ret new "core::option::Option" Some{0: call "oak_core::source::cursor::SourceCursor::peek_char"($0)@Some.0}
case
  if not (call "oak_core::source::cursor::SourceCursor::peek_char"($0) is Some)
  do call "oak_core::source::cursor::SourceCursor::peek_char"($0)
  ret new "core::option::Option" None{}

fn oak_core::source::cursor::SourceCursor::chunk_end
  let %1 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %2 = call "oak_core::source::Source::chunk_at"((*$0).source, (*$0).offset)
  let %3 = ((*$0).chunk.start < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %4 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %5 = ((*$0) with {chunk: %4, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %6 = ((*$0).chunk.start - call "oak_core::source::Source::length"((*$0).source) + len((*(*$0).chunk.text)))
  let %7 = ((*$0).chunk.start + len((*(*$0).chunk.text)) < call "oak_core::source::Source::length"((*$0).source))
  let %8 = ((*$0).chunk.start + len((*(*$0).chunk.text)) == call "oak_core::source::Source::length"((*$0).source))
  let %9 = ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source)})
  let %10 = ((*$0).offset < (*$0).chunk.start + len((*(*$0).chunk.text)) + 1)
  let %11 = ((*$0).offset == (*$0).chunk.start + len((*(*$0).chunk.text)))
  let %12 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source))
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret (%2.start + len((*%2.text)))
case
  if not %1
  if not %3
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  set $0 := %5
  ret (%4.start + len((*%4.text)))
case
  if not %1
  if %3
  if not %7
  if not %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %9
  ret ((*$0).chunk.start + len((*(*$0).chunk.text)))
case
  if not %1
  if %3
  if not %7
  if %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %9
  ret ((*$0).chunk.start + len((*(*$0).chunk.text)))
case
  if not %1
  if %3
  if %7
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  set $0 := %5
  ret (%4.start + len((*%4.text)))
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret (%2.start + len((*%2.text)))
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %10
  if not %11
  do call "oak_core::source::Source::length"((*$0).source)
  ret ((*$0).chunk.start + len((*(*$0).chunk.text)))
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %10
  if %11
  if not %12
  do call "oak_core::source::Source::length"((*$0).source)
  ret ((*$0).chunk.start + len((*(*$0).chunk.text)))
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %10
  if %11
  if %12
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret (%2.start + len((*%2.text)))

fn oak_core::source::cursor::SourceCursor::consume_if_starts_with
  given oak_core::source::cursor::SourceCursor::advance_bytes
  given oak_core::source::cursor::SourceCursor::starts_with
  let %1 = call "oak_core::source::cursor::SourceCursor::advance_bytes"($0, len((*$1)))
case
  if true(call "oak_core::source::cursor::SourceCursor::starts_with"($0, $1))
  do call "oak_core::source::cursor::SourceCursor::starts_with"($0, $1)
  do %1
  set $0 := post(0, %1)
  ret 1
case
  if not true(call "oak_core::source::cursor::SourceCursor::starts_with"($0, $1))
  do call "oak_core::source::cursor::SourceCursor::starts_with"($0, $1)
  ret 0

fn oak_core::source::cursor::SourceCursor::ensure_chunk  [private]
  takes &mut oak_core::source::cursor::SourceCursor<, S>
  let %1 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %2 = call "oak_core::source::Source::chunk_at"((*$0).source, (*$0).offset)
  let %3 = ((*$0).offset < (*$0).chunk.start + len((*(*$0).chunk.text)) + 1)
  let %4 = ((*$0).offset == (*$0).chunk.start + len((*(*$0).chunk.text)))
  let %5 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source))
  let %6 = ((*$0).chunk.start < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %7 = ((*$0).chunk.start - call "oak_core::source::Source::length"((*$0).source) + len((*(*$0).chunk.text)))
  let %8 = ((*$0).chunk.start + len((*(*$0).chunk.text)) < call "oak_core::source::Source::length"((*$0).source))
  let %9 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %10 = ((*$0) with {chunk: %9, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %11 = ((*$0).chunk.start + len((*(*$0).chunk.text)) == call "oak_core::source::Source::length"((*$0).source))
  let %12 = ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source)})
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret tup{}
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if %4
  if %5
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret tup{}
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if %4
  if not %5
  do call "oak_core::source::Source::length"((*$0).source)
  ret tup{}
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if not %4
  do call "oak_core::source::Source::length"((*$0).source)
  ret tup{}
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %3
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret tup{}
case
  if not %1
  if %6
  if %8
  do call "oak_core::source::Source::length"((*$0).source)
  do %9
  set $0 := %10
  ret tup{}
case
  if not %1
  if %6
  if not %8
  if %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %12
  ret tup{}
case
  if not %1
  if %6
  if not %8
  if not %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %12
  ret tup{}
case
  if not %1
  if not %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %9
  set $0 := %10
  ret tup{}

fn oak_core::source::cursor::SourceCursor::find_str
  given oak_core::source::TextChunk::end
  given oak_core::source::TextChunk::slice_from
  let %1 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + 1)
  let %2 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v0"))
  let %3 = (call "oak_core::source::Source::length"((*$0).source) < call "oak_core::source::TextChunk::end"(rv(%2)) + 1)
  let %4 = call "oak_core::source::TextChunk::slice_from"(rv(%2), lv("L0", "v0"))
  let %5 = (call "str::find"(rv(cat(<lv("L0", "v1"), %4>)), $1) is Some)
  let %6 = call "str::is_char_boundary"(rv(cat(<lv("L0", "v1"), %4>)), lv("L1", "v0"))
  let %7 = call "alloc::string::String::drain"(rv(cat(<lv("L0", "v1"), %4>)), new "core::ops::range::RangeTo"{end: lv("L1", "v0")})
  let %8 = new "core::option::Option" Some{0: (call "str::find"(rv(cat(<lv("L0", "v1"), %4>)), $1)@Some.0 - len(lv("L0", "v1")) + lv("L0", "v0"))}
case
  if (len((*$1)) == 0)
  ret new "core::option::Option" Some{0: (*$0).offset}
case
  if not (len((*$1)) == 0)
  if %1
  loop L0 | v0 from (*$0).offset | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret new "core::option::Option" None{}
pass L0
  if not %1
  if (len(lv("L0", "v1")) == 0)
  if not %3
  if not %5
  if true(%6)
  loop L0 | v0 from (*$0).offset | v1 from ""
  loop L1 @0 | v0 from max0((-len((*$1)) + len(cat(<lv("L0", "v1"), %4>)) + 1))
  do %2
  do %4
  do call "oak_core::source::TextChunk::end"(rv(%2))
  do call "str::find"(rv(cat(<lv("L0", "v1"), %4>)), $1)
  do %6
  do %7
  do call "oak_core::source::TextChunk::end"(rv(%2))
  then v0 := call "oak_core::source::TextChunk::end"(rv(%2))
  then v1 := post(0, %7)
pass L1
  if not true(%6)
  loop L0 | v0 from (*$0).offset | v1 from ""
  loop L1 | v0 from max0((-len((*$1)) + len(cat(<lv("L0", "v1"), %4>)) + 1))
  do %6
  then v0 := (lv("L1", "v0") - 1)
pass L0
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  if not %5
  if true(%6)
  loop L0 | v0 from (*$0).offset | v1 from ""
  loop L1 @1 | v0 from max0((-len((*$1)) + len(cat(<lv("L0", "v1"), %4>)) + 1))
  do %2
  do %4
  do call "str::find"(rv(cat(<lv("L0", "v1"), %4>)), $1)
  do %6
  do %7
  do call "oak_core::source::TextChunk::end"(rv(%2))
  then v0 := call "oak_core::source::TextChunk::end"(rv(%2))
  then v1 := post(0, %7)
case
  if not (len((*$1)) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  if %3
  if (call "str::find"(%4, $1) is Some)
  loop L0 | v0 from (*$0).offset | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %4
  do call "oak_core::source::TextChunk::end"(rv(%2))
  do call "str::find"(%4, $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret new "core::option::Option" Some{0: (call "str::find"(%4, $1)@Some.0 + lv("L0", "v0"))}
case
  if not (len((*$1)) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  if %3
  if not (call "str::find"(%4, $1) is Some)
  loop L0 | v0 from (*$0).offset | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %4
  do call "oak_core::source::TextChunk::end"(rv(%2))
  do call "str::find"(%4, $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret new "core::option::Option" None{}
case
  if not (len((*$1)) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  if not %3
  if %5
  loop L0 | v0 from (*$0).offset | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %4
  do call "oak_core::source::TextChunk::end"(rv(%2))
  do call "str::find"(rv(cat(<lv("L0", "v1"), %4>)), $1)
  set $0 := ((*$0) with {scratch: cat(<lv("L0", "v1"), %4>)})
  ret %8
case
  if not (len((*$1)) == 0)
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  if %5
  loop L0 | v0 from (*$0).offset | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %4
  do call "str::find"(rv(cat(<lv("L0", "v1"), %4>)), $1)
  set $0 := ((*$0) with {scratch: cat(<lv("L0", "v1"), %4>)})
  ret %8

fn oak_core::source::cursor::SourceCursor::new
  let %1 = call "oak_core::source::Source::chunk_at"($0, min(call "oak_core::source::Source::length"($0), 0))
case
  do call "oak_core::source::Source::length"($0)
  do %1
  ret new "oak_core::source::cursor::SourceCursor"{source: $0, offset: min(call "oak_core::source::Source::length"($0), 0), chunk: %1, scratch: ""}

fn oak_core::source::cursor::SourceCursor::new_at
  let %1 = call "oak_core::source::Source::chunk_at"($0, min($1, call "oak_core::source::Source::length"($0)))
case
  do call "oak_core::source::Source::length"($0)
  do %1
  ret new "oak_core::source::cursor::SourceCursor"{source: $0, offset: min($1, call "oak_core::source::Source::length"($0)), chunk: %1, scratch: ""}

fn oak_core::source::cursor::SourceCursor::peek_byte
  let %1 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %2 = call "oak_core::source::Source::chunk_at"((*$0).source, (*$0).offset)
  let %3 = new "core::option::Option" Some{0: (*%2.text)[(-%2.start + (*$0).offset)]}
  let %4 = ((*$0).chunk.start < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %5 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %6 = (call "oak_core::source::Source::length"((*$0).source) < %5.start + len((*%5.text)))
  let %7 = ((*$0) with {chunk: %5, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %8 = new "core::option::Option" Some{0: (*%5.text)[(-%5.start + call "oak_core::source::Source::length"((*$0).source))]}
  let %9 = ((*$0).chunk.start - call "oak_core::source::Source::length"((*$0).source) + len((*(*$0).chunk.text)))
  let %10 = ((*$0).chunk.start + len((*(*$0).chunk.text)) < call "oak_core::source::Source::length"((*$0).source))
  let %11 = ((*$0).chunk.start + len((*(*$0).chunk.text)) == call "oak_core::source::Source::length"((*$0).source))
  let %12 = ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source)})
  let %13 = new "core::option::Option" Some{0: (*(*$0).chunk.text)[(-(*$0).chunk.start + call "oak_core::source::Source::length"((*$0).source))]}
  let %14 = ((*$0).offset < (*$0).chunk.start + len((*(*$0).chunk.text)))
  let %15 = ((*$0).offset < (*$0).chunk.start + len((*(*$0).chunk.text)) + 1)
  let %16 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source))
case
  if ((*$0).offset < (*$0).chunk.start)
  if %1
  if ((*$0).offset < %2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret %3
case
  if ((*$0).offset < (*$0).chunk.start)
  if %1
  if not ((*$0).offset < %2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret new "core::option::Option" None{}
case
  if ((*$0).offset < (*$0).chunk.start)
  if not %1
  if not %4
  if %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  set $0 := %7
  ret %8
case
  if ((*$0).offset < (*$0).chunk.start)
  if not %1
  if not %4
  if not %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  set $0 := %7
  ret new "core::option::Option" None{}
case
  if ((*$0).offset < (*$0).chunk.start)
  if not %1
  if %4
  if not %10
  if not %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %12
  ret %13
case
  if ((*$0).offset < (*$0).chunk.start)
  if not %1
  if %4
  if not %10
  if %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %12
  ret new "core::option::Option" None{}
case
  if ((*$0).offset < (*$0).chunk.start)
  if not %1
  if %4
  if %10
  if %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  set $0 := %7
  ret %8
case
  if ((*$0).offset < (*$0).chunk.start)
  if not %1
  if %4
  if %10
  if not %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  set $0 := %7
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if %14
  ret new "core::option::Option" Some{0: (*(*$0).chunk.text)[(-(*$0).chunk.start + (*$0).offset)]}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if %1
  if %15
  if %16
  if ((*$0).offset < %2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret %3
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if %1
  if %15
  if %16
  if not ((*$0).offset < %2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if not %1
  if not %4
  if %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  set $0 := %7
  ret %8
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if not %1
  if not %4
  if not %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  set $0 := %7
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if not %1
  if %4
  if not %10
  if not %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %12
  ret %13
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if not %1
  if %4
  if not %10
  if %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %12
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if not %1
  if %4
  if %10
  if %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  set $0 := %7
  ret %8
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if not %1
  if %4
  if %10
  if not %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  set $0 := %7
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if %1
  if not %15
  if ((*$0).offset < %2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret %3
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if %1
  if not %15
  if not ((*$0).offset < %2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  set $0 := ((*$0) with {chunk: %2})
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %14
  if %1
  if %15
  if not %16
  do call "oak_core::source::Source::length"((*$0).source)
  ret new "core::option::Option" None{}

fn oak_core::source::cursor::SourceCursor::peek_char
  given oak_core::source::cursor::SourceCursor::rest
  let %1 = (len(call "str::chars"(call "oak_core::source::cursor::SourceCursor::rest"($0))) < 1)
  let %2 = new "core::option::Option" Some{0: call "str::chars"(call "oak_core::source::cursor::SourceCursor::rest"($0))[0]}
  let %3 = ((*$0).offset < (*$0).chunk.start + len((*(*$0).chunk.text)))
  let %4 = call "str::is_char_boundary"((*$0).chunk.text, (-(*$0).chunk.start + (*$0).offset))
  let %5 = call "str::chars"(slice((*(*$0).chunk.text), (-(*$0).chunk.start + (*$0).offset), len((*(*$0).chunk.text))))
  let %6 = ((*$0).offset + n("C0") < (*$0).chunk.start + len((*(*$0).chunk.text)))
  let %7 = call "str::is_char_boundary"((*$0).chunk.text, (-(*$0).chunk.start + (*$0).offset + n("C0")))
  let %8 = call "str::chars"(slice((*(*$0).chunk.text), (-(*$0).chunk.start + (*$0).offset + n("C0")), len((*(*$0).chunk.text))))
case
  if ((*$0).offset < (*$0).chunk.start)
  if %1
  do call "oak_core::source::cursor::SourceCursor::rest"($0)
  ret new "core::option::Option" None{}
case
  if ((*$0).offset < (*$0).chunk.start)
  if not %1
  do call "oak_core::source::cursor::SourceCursor::rest"($0)
  ret %2
case
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if true(%4)
  if (len(%5) < 1)
  do %4
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if true(%4)
  if not (len(%5) < 1)
  do %4
  ret new "core::option::Option" Some{0: %5[0]}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if not true(%4)
  if %6
  if true(%7)
  if (len(%8) < 1)
  loop C0
  do %4
  do %7
  ret new "core::option::Option" None{}
pass C0
  if %6
  if not true(%7)
  loop C0
  do %7
case
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if not true(%4)
  if %6
  if true(%7)
  if not (len(%8) < 1)
  loop C0
  do %4
  do %7
  ret new "core::option::Option" Some{0: %8[0]}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if not true(%4)
  if not %6
  if %1
  loop C0
  do %4
  do call "oak_core::source::cursor::SourceCursor::rest"($0)
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if %3
  if not true(%4)
  if not %6
  if not %1
  loop C0
  do %4
  do call "oak_core::source::cursor::SourceCursor::rest"($0)
  ret %2
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %3
  if %1
  do call "oak_core::source::cursor::SourceCursor::rest"($0)
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < (*$0).chunk.start)
  if not %3
  if not %1
  do call "oak_core::source::cursor::SourceCursor::rest"($0)
  ret %2

fn oak_core::source::cursor::SourceCursor::peek_next_char
  given oak_core::source::cursor::SourceCursor::peek_char
  given oak_core::source::cursor::SourceCursor::peek_next_n
  let %1 = call "char::len_utf8"(call "oak_core::source::cursor::SourceCursor::peek_char"($0)@Some.0)
  let %2 = call "oak_core::source::cursor::SourceCursor::peek_next_n"($0, %1)
case
  if (call "oak_core::source::cursor::SourceCursor::peek_char"($0) is Some)
  do call "oak_core::source::cursor::SourceCursor::peek_char"($0)
  do %1
  do %2
  ret %2
case
  if not (call "oak_core::source::cursor::SourceCursor::peek_char"($0) is Some)
  do call "oak_core::source::cursor::SourceCursor::peek_char"($0)
  ret new "core::option::Option" None{}

fn oak_core::source::cursor::SourceCursor::peek_next_n
  let %1 = ($1 + (*$0).offset < call "oak_core::source::Source::length"((*$0).source))
  let %2 = call "oak_core::source::Source::get_char_at"((*$0).source, ($1 + (*$0).offset))
  let %3 = ($1 + (*$0).offset < (*$0).chunk.start + len((*(*$0).chunk.text)))
  let %4 = true(validrange((*(*$0).chunk.text), ($1 - (*$0).chunk.start + (*$0).offset), len((*(*$0).chunk.text))))
  let %5 = call "str::chars"(slice((*(*$0).chunk.text), ($1 - (*$0).chunk.start + (*$0).offset), len((*(*$0).chunk.text))))
case
  if %1
  if ($1 + (*$0).offset < (*$0).chunk.start)
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  ret %2
case
  if %1
  if not ($1 + (*$0).offset < (*$0).chunk.start)
  if %3
  if %4
  if (len(%5) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  ret new "core::option::Option" None{}
case
  if %1
  if not ($1 + (*$0).offset < (*$0).chunk.start)
  if %3
  if %4
  if not (len(%5) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  ret new "core::option::Option" Some{0: %5[0]}
case
  if %1
  if not ($1 + (*$0).offset < (*$0).chunk.start)
  if %3
  if not %4
  do call "oak_core::source::Source::length"((*$0).source)
  ret new "core::option::Option" None{}
case
  if %1
  if not ($1 + (*$0).offset < (*$0).chunk.start)
  if %3
  if not %4
  do call "oak_core::source::Source::length"((*$0).source)
  ret new "core::option::Option" Some{0: call "str::chars"("")[0]}
case
  if %1
  if not ($1 + (*$0).offset < (*$0).chunk.start)
  if not %3
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  ret %2
case
  if not %1
  do call "oak_core::source::Source::length"((*$0).source)
  ret new "core::option::Option" None{}

fn oak_core::source::cursor::SourceCursor::position
case
  ret (*$0).offset

fn oak_core::source::cursor::SourceCursor::rest
  given oak_core::source::TextChunk::end
  given oak_core::source::TextChunk::slice_from
  let %1 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %2 = call "oak_core::source::Source::chunk_at"((*$0).source, (*$0).offset)
  let %3 = call "oak_core::source::TextChunk::slice_from"(rv(%2), (*$0).offset)
  let %4 = ((*$0).chunk.start < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %5 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %6 = call "oak_core::source::TextChunk::slice_from"(rv(%5), call "oak_core::source::Source::length"((*$0).source))
  let %7 = ((*$0) with {chunk: %5, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %8 = (call "oak_core::source::Source::length"((*$0).source) < call "oak_core::source::TextChunk::end"(rv((*$0).chunk)) + 1)
  let %9 = (call "oak_core::source::Source::length"((*$0).source) == call "oak_core::source::TextChunk::end"(rv((*$0).chunk)))
  let %10 = call "oak_core::source::TextChunk::slice_from"(rv((*$0).chunk), call "oak_core::source::Source::length"((*$0).source))
  let %11 = ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source)})
  let %12 = ((*$0).offset < call "oak_core::source::TextChunk::end"(rv((*$0).chunk)) + 1)
  let %13 = ((*$0).offset == call "oak_core::source::TextChunk::end"(rv((*$0).chunk)))
  let %14 = call "oak_core::source::TextChunk::slice_from"(rv((*$0).chunk), (*$0).offset)
  let %15 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source))
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  set $0 := ((*$0) with {chunk: %2})
  ret %3
case
  if not %1
  if not %4
  do call "oak_core::source::Source::length"((*$0).source)
  do %5
  do %6
  set $0 := %7
  ret %6
case
  if not %1
  if %4
  if not %8
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do %5
  do %6
  set $0 := %7
  ret %6
case
  if not %1
  if %4
  if %8
  if not %9
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do %10
  set $0 := %11
  ret %10
case
  if not %1
  if %4
  if %8
  if %9
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do %10
  set $0 := %11
  ret %10
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %12
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do %2
  do %3
  set $0 := ((*$0) with {chunk: %2})
  ret %3
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %12
  if not %13
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do %14
  ret %14
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %12
  if %13
  if not %15
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do %14
  ret %14
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %12
  if %13
  if %15
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do call "oak_core::source::TextChunk::end"(rv((*$0).chunk))
  do %2
  do %3
  set $0 := ((*$0) with {chunk: %2})
  ret %3

fn oak_core::source::cursor::SourceCursor::set_position
case
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {offset: min(call "oak_core::source::Source::length"((*$0).source), $1)})
  ret (*$0).offset

fn oak_core::source::cursor::SourceCursor::skip_ascii_digits
  given oak_core::source::simd::SimdScanner::skip_ascii_digits
  let %1 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0"))
  let %2 = (call "oak_core::source::Source::length"((*$0).source) - lv("L0", "v1").start)
  let %3 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v1").start)
  let %4 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %5 = max0((-%4.start + call "oak_core::source::Source::length"((*$0).source)))
  let %6 = ((*$0) with {chunk: %4, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %7 = new "range"{start: (*$0).offset, end: call "oak_core::source::Source::length"((*$0).source)}
  let %8 = call "oak_core::source::simd::SimdScanner::skip_ascii_digits"(rv(slice((*%4.text), %5, len((*%4.text)))))
  let %9 = (lv("L0", "v0") < len((*lv("L0", "v1").text)) + lv("L0", "v1").start + 1)
  let %10 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v0"))
  let %11 = call "oak_core::source::simd::SimdScanner::skip_ascii_digits"(rv(slice((*%10.text), max0((-%10.start + lv("L0", "v0"))), len((*%10.text)))))
  let %12 = (len((*%10.text)) < %11 + max0((-%10.start + lv("L0", "v0"))) + 1)
  let %13 = (call "oak_core::source::Source::length"((*$0).source) < %11 + lv("L0", "v0") + 1)
  let %14 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + 1)
  let %15 = (lv("L0", "v0") == len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %16 = call "oak_core::source::simd::SimdScanner::skip_ascii_digits"(rv(slice((*lv("L0", "v1").text), (lv("L0", "v0") - lv("L0", "v1").start), len((*lv("L0", "v1").text)))))
  let %17 = (%16 + lv("L0", "v0") < len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %18 = (call "oak_core::source::Source::length"((*$0).source) < %16 + lv("L0", "v0") + 1)
  let %19 = (call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v1").text)) + lv("L0", "v1").start + 1)
  let %20 = (call "oak_core::source::Source::length"((*$0).source) == len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %21 = call "oak_core::source::simd::SimdScanner::skip_ascii_digits"(rv(slice((*lv("L0", "v1").text), %2, len((*lv("L0", "v1").text)))))
  let %22 = (%21 + call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %23 = (%21 + call "oak_core::source::Source::length"((*$0).source))
  let %24 = ((*$0) with {chunk: %4, offset: (%8 + call "oak_core::source::Source::length"((*$0).source))})
  let %25 = new "range"{start: (*$0).offset, end: (%8 + call "oak_core::source::Source::length"((*$0).source))}
  let %26 = new "range"{start: (*$0).offset, end: (%11 + lv("L0", "v0"))}
  let %27 = ((*$0) with {chunk: lv("L0", "v1"), offset: (%16 + lv("L0", "v0"))})
  let %28 = new "range"{start: (*$0).offset, end: (%16 + lv("L0", "v0"))}
case
  if %1
  if %3
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
pass L0
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%8 + call "oak_core::source::Source::length"((*$0).source))
  then v1 := %4
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if not %17
  if not %18
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%16 + lv("L0", "v0"))
  then v1 := lv("L0", "v1")
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%8 + call "oak_core::source::Source::length"((*$0).source))
  then v1 := %4
pass L0
  if %1
  if not %3
  if %19
  if not %20
  if not %22
  if (%21 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %23
  then v1 := lv("L0", "v1")
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if not (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %24
  ret %25
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if not (len((*%4.text)) < %5 + %8 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  set $0 := %24
  ret %25
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if %17
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  set $0 := %27
  ret %28
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if not %17
  if %18
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %27
  ret %28
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if %1
  if not %3
  if not %19
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
case
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if not (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %24
  ret %25
case
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if not (len((*%4.text)) < %5 + %8 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  set $0 := %24
  ret %25
case
  if %1
  if not %3
  if %19
  if not %20
  if %22
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: %23})
  ret new "range"{start: (*$0).offset, end: %23}
case
  if %1
  if not %3
  if %19
  if not %20
  if not %22
  if not (%21 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: %23})
  ret new "range"{start: (*$0).offset, end: %23}
case
  if %1
  if not %3
  if %19
  if %20
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: call "oak_core::source::Source::length"((*$0).source)})
  ret %7

fn oak_core::source::cursor::SourceCursor::skip_ascii_ident_continue
  given oak_core::source::simd::SimdScanner::skip_ascii_ident_continue
  let %1 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0"))
  let %2 = (call "oak_core::source::Source::length"((*$0).source) - lv("L0", "v1").start)
  let %3 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v1").start)
  let %4 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %5 = max0((-%4.start + call "oak_core::source::Source::length"((*$0).source)))
  let %6 = ((*$0) with {chunk: %4, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %7 = new "range"{start: (*$0).offset, end: call "oak_core::source::Source::length"((*$0).source)}
  let %8 = call "oak_core::source::simd::SimdScanner::skip_ascii_ident_continue"(rv(slice((*%4.text), %5, len((*%4.text)))))
  let %9 = (lv("L0", "v0") < len((*lv("L0", "v1").text)) + lv("L0", "v1").start + 1)
  let %10 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v0"))
  let %11 = call "oak_core::source::simd::SimdScanner::skip_ascii_ident_continue"(rv(slice((*%10.text), max0((-%10.start + lv("L0", "v0"))), len((*%10.text)))))
  let %12 = (len((*%10.text)) < %11 + max0((-%10.start + lv("L0", "v0"))) + 1)
  let %13 = (call "oak_core::source::Source::length"((*$0).source) < %11 + lv("L0", "v0") + 1)
  let %14 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + 1)
  let %15 = (lv("L0", "v0") == len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %16 = call "oak_core::source::simd::SimdScanner::skip_ascii_ident_continue"(rv(slice((*lv("L0", "v1").text), (lv("L0", "v0") - lv("L0", "v1").start), len((*lv("L0", "v1").text)))))
  let %17 = (%16 + lv("L0", "v0") < len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %18 = (call "oak_core::source::Source::length"((*$0).source) < %16 + lv("L0", "v0") + 1)
  let %19 = (call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v1").text)) + lv("L0", "v1").start + 1)
  let %20 = (call "oak_core::source::Source::length"((*$0).source) == len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %21 = call "oak_core::source::simd::SimdScanner::skip_ascii_ident_continue"(rv(slice((*lv("L0", "v1").text), %2, len((*lv("L0", "v1").text)))))
  let %22 = (%21 + call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %23 = (%21 + call "oak_core::source::Source::length"((*$0).source))
  let %24 = ((*$0) with {chunk: %4, offset: (%8 + call "oak_core::source::Source::length"((*$0).source))})
  let %25 = new "range"{start: (*$0).offset, end: (%8 + call "oak_core::source::Source::length"((*$0).source))}
  let %26 = new "range"{start: (*$0).offset, end: (%11 + lv("L0", "v0"))}
  let %27 = ((*$0) with {chunk: lv("L0", "v1"), offset: (%16 + lv("L0", "v0"))})
  let %28 = new "range"{start: (*$0).offset, end: (%16 + lv("L0", "v0"))}
case
  if %1
  if %3
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
pass L0
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%8 + call "oak_core::source::Source::length"((*$0).source))
  then v1 := %4
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if not %17
  if not %18
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%16 + lv("L0", "v0"))
  then v1 := lv("L0", "v1")
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%8 + call "oak_core::source::Source::length"((*$0).source))
  then v1 := %4
pass L0
  if %1
  if not %3
  if %19
  if not %20
  if not %22
  if (%21 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %23
  then v1 := lv("L0", "v1")
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if not (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %24
  ret %25
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if not (len((*%4.text)) < %5 + %8 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  set $0 := %24
  ret %25
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if %17
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  set $0 := %27
  ret %28
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if not %17
  if %18
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %27
  ret %28
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if %1
  if not %3
  if not %19
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
case
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if not (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %24
  ret %25
case
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if not (len((*%4.text)) < %5 + %8 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  set $0 := %24
  ret %25
case
  if %1
  if not %3
  if %19
  if not %20
  if %22
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: %23})
  ret new "range"{start: (*$0).offset, end: %23}
case
  if %1
  if not %3
  if %19
  if not %20
  if not %22
  if not (%21 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: %23})
  ret new "range"{start: (*$0).offset, end: %23}
case
  if %1
  if not %3
  if %19
  if %20
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: call "oak_core::source::Source::length"((*$0).source)})
  ret %7

fn oak_core::source::cursor::SourceCursor::skip_ascii_whitespace
  given oak_core::source::simd::SimdScanner::skip_ascii_whitespace
  let %1 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0"))
  let %2 = (call "oak_core::source::Source::length"((*$0).source) - lv("L0", "v1").start)
  let %3 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v1").start)
  let %4 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %5 = max0((-%4.start + call "oak_core::source::Source::length"((*$0).source)))
  let %6 = ((*$0) with {chunk: %4, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %7 = new "range"{start: (*$0).offset, end: call "oak_core::source::Source::length"((*$0).source)}
  let %8 = call "oak_core::source::simd::SimdScanner::skip_ascii_whitespace"(rv(slice((*%4.text), %5, len((*%4.text)))))
  let %9 = (lv("L0", "v0") < len((*lv("L0", "v1").text)) + lv("L0", "v1").start + 1)
  let %10 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v0"))
  let %11 = call "oak_core::source::simd::SimdScanner::skip_ascii_whitespace"(rv(slice((*%10.text), max0((-%10.start + lv("L0", "v0"))), len((*%10.text)))))
  let %12 = (len((*%10.text)) < %11 + max0((-%10.start + lv("L0", "v0"))) + 1)
  let %13 = (call "oak_core::source::Source::length"((*$0).source) < %11 + lv("L0", "v0") + 1)
  let %14 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + 1)
  let %15 = (lv("L0", "v0") == len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %16 = call "oak_core::source::simd::SimdScanner::skip_ascii_whitespace"(rv(slice((*lv("L0", "v1").text), (lv("L0", "v0") - lv("L0", "v1").start), len((*lv("L0", "v1").text)))))
  let %17 = (%16 + lv("L0", "v0") < len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %18 = (call "oak_core::source::Source::length"((*$0).source) < %16 + lv("L0", "v0") + 1)
  let %19 = (call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v1").text)) + lv("L0", "v1").start + 1)
  let %20 = (call "oak_core::source::Source::length"((*$0).source) == len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %21 = call "oak_core::source::simd::SimdScanner::skip_ascii_whitespace"(rv(slice((*lv("L0", "v1").text), %2, len((*lv("L0", "v1").text)))))
  let %22 = (%21 + call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %23 = (%21 + call "oak_core::source::Source::length"((*$0).source))
  let %24 = ((*$0) with {chunk: %4, offset: (%8 + call "oak_core::source::Source::length"((*$0).source))})
  let %25 = new "range"{start: (*$0).offset, end: (%8 + call "oak_core::source::Source::length"((*$0).source))}
  let %26 = new "range"{start: (*$0).offset, end: (%11 + lv("L0", "v0"))}
  let %27 = ((*$0) with {chunk: lv("L0", "v1"), offset: (%16 + lv("L0", "v0"))})
  let %28 = new "range"{start: (*$0).offset, end: (%16 + lv("L0", "v0"))}
case
  if %1
  if %3
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
pass L0
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%8 + call "oak_core::source::Source::length"((*$0).source))
  then v1 := %4
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if not %17
  if not %18
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%16 + lv("L0", "v0"))
  then v1 := lv("L0", "v1")
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%8 + call "oak_core::source::Source::length"((*$0).source))
  then v1 := %4
pass L0
  if %1
  if not %3
  if %19
  if not %20
  if not %22
  if (%21 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %23
  then v1 := lv("L0", "v1")
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if not (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %24
  ret %25
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if not (len((*%4.text)) < %5 + %8 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  set $0 := %24
  ret %25
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if %17
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  set $0 := %27
  ret %28
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if not %17
  if %18
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %27
  ret %28
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if %1
  if not %3
  if not %19
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
case
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if not (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %24
  ret %25
case
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if not (len((*%4.text)) < %5 + %8 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  set $0 := %24
  ret %25
case
  if %1
  if not %3
  if %19
  if not %20
  if %22
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: %23})
  ret new "range"{start: (*$0).offset, end: %23}
case
  if %1
  if not %3
  if %19
  if not %20
  if not %22
  if not (%21 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: %23})
  ret new "range"{start: (*$0).offset, end: %23}
case
  if %1
  if not %3
  if %19
  if %20
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: call "oak_core::source::Source::length"((*$0).source)})
  ret %7

fn oak_core::source::cursor::SourceCursor::skip_until
  given oak_core::source::simd::SimdScanner::skip_until
  let %1 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0"))
  let %2 = (call "oak_core::source::Source::length"((*$0).source) - lv("L0", "v1").start)
  let %3 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v1").start)
  let %4 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %5 = max0((-%4.start + call "oak_core::source::Source::length"((*$0).source)))
  let %6 = ((*$0) with {chunk: %4, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %7 = new "range"{start: (*$0).offset, end: call "oak_core::source::Source::length"((*$0).source)}
  let %8 = call "oak_core::source::simd::SimdScanner::skip_until"(rv(slice((*%4.text), %5, len((*%4.text)))), $1)
  let %9 = (lv("L0", "v0") < len((*lv("L0", "v1").text)) + lv("L0", "v1").start + 1)
  let %10 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v0"))
  let %11 = call "oak_core::source::simd::SimdScanner::skip_until"(rv(slice((*%10.text), max0((-%10.start + lv("L0", "v0"))), len((*%10.text)))), $1)
  let %12 = (len((*%10.text)) < %11 + max0((-%10.start + lv("L0", "v0"))) + 1)
  let %13 = (call "oak_core::source::Source::length"((*$0).source) < %11 + lv("L0", "v0") + 1)
  let %14 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + 1)
  let %15 = (lv("L0", "v0") == len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %16 = call "oak_core::source::simd::SimdScanner::skip_until"(rv(slice((*lv("L0", "v1").text), (lv("L0", "v0") - lv("L0", "v1").start), len((*lv("L0", "v1").text)))), $1)
  let %17 = (%16 + lv("L0", "v0") < len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %18 = (call "oak_core::source::Source::length"((*$0).source) < %16 + lv("L0", "v0") + 1)
  let %19 = (call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v1").text)) + lv("L0", "v1").start + 1)
  let %20 = (call "oak_core::source::Source::length"((*$0).source) == len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %21 = call "oak_core::source::simd::SimdScanner::skip_until"(rv(slice((*lv("L0", "v1").text), %2, len((*lv("L0", "v1").text)))), $1)
  let %22 = (%21 + call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v1").text)) + lv("L0", "v1").start)
  let %23 = (%21 + call "oak_core::source::Source::length"((*$0).source))
  let %24 = ((*$0) with {chunk: %4, offset: (%8 + call "oak_core::source::Source::length"((*$0).source))})
  let %25 = new "range"{start: (*$0).offset, end: (%8 + call "oak_core::source::Source::length"((*$0).source))}
  let %26 = new "range"{start: (*$0).offset, end: (%11 + lv("L0", "v0"))}
  let %27 = ((*$0) with {chunk: lv("L0", "v1"), offset: (%16 + lv("L0", "v0"))})
  let %28 = new "range"{start: (*$0).offset, end: (%16 + lv("L0", "v0"))}
case
  if %1
  if %3
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
pass L0
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%8 + call "oak_core::source::Source::length"((*$0).source))
  then v1 := %4
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if not %17
  if not %18
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%16 + lv("L0", "v0"))
  then v1 := lv("L0", "v1")
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if not %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%11 + lv("L0", "v0"))
  then v1 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := %10
pass L0
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (%8 + call "oak_core::source::Source::length"((*$0).source))
  then v1 := %4
pass L0
  if %1
  if not %3
  if %19
  if not %20
  if not %22
  if (%21 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %23
  then v1 := lv("L0", "v1")
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if not (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %24
  ret %25
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if not (len((*%4.text)) < %5 + %8 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  set $0 := %24
  ret %25
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if %17
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  set $0 := %27
  ret %28
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if not %15
  if not %17
  if %18
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %16
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %27
  ret %28
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v1").start)
  if %9
  if %15
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %12
  if %13
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %11
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: (%11 + lv("L0", "v0"))})
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v1").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if %1
  if not %3
  if not %19
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
case
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if (len((*%4.text)) < %5 + %8 + 1)
  if not (%8 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %24
  ret %25
case
  if %1
  if not %3
  if not %19
  if not (len((*%4.text)) < %5 + 1)
  if not (len((*%4.text)) < %5 + %8 + 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %8
  set $0 := %24
  ret %25
case
  if %1
  if not %3
  if %19
  if not %20
  if %22
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: %23})
  ret new "range"{start: (*$0).offset, end: %23}
case
  if %1
  if not %3
  if %19
  if not %20
  if not %22
  if not (%21 < 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: %23})
  ret new "range"{start: (*$0).offset, end: %23}
case
  if %1
  if not %3
  if %19
  if %20
  loop L0 | v0 from (*$0).offset | v1 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v1"), offset: call "oak_core::source::Source::length"((*$0).source)})
  ret %7

fn oak_core::source::cursor::SourceCursor::source
case
  ret (*$0).source

fn oak_core::source::cursor::SourceCursor::starts_with
  let %1 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %2 = call "oak_core::source::Source::chunk_at"((*$0).source, (*$0).offset)
  let %3 = call "str::is_char_boundary"(%2.text, max0((-%2.start + (*$0).offset)))
  let %4 = true(validrange((*%2.text), max0((-%2.start + (*$0).offset)), len((*%2.text))))
  let %5 = (len((*%2.text)) < len((*$1)) + max0((-%2.start + (*$0).offset)))
  let %6 = slice((*%2.text), max0((-%2.start + (*$0).offset)), len((*%2.text)))
  let %7 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + 1)
  let %8 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v0"))
  let %9 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v1") + 1)
  let %10 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v1"))
  let %11 = (len((*%2.text)) < max0((-%2.start + (*$0).offset)) + n("C0") + 1)
  let %12 = true(validrange((*%2.text), len((*%2.text)), len((*%2.text))))
  let %13 = slice((*%2.text), (max0((-%2.start + (*$0).offset)) + n("C0")), len((*%2.text)))
  let %14 = call "str::is_char_boundary"(%2.text, (max0((-%2.start + (*$0).offset)) + n("C0")))
  let %15 = call "str::starts_with"(rv(slice((*%2.text), len((*%2.text)), len((*%2.text)))), $1)
  let %16 = true(validrange((*%2.text), (max0((-%2.start + (*$0).offset)) + n("C0")), len((*%2.text))))
  let %17 = (len((*%2.text)) < len((*$1)) + max0((-%2.start + (*$0).offset)) + n("C0"))
  let %18 = ((*$0).chunk.start < call "oak_core::source::Source::length"((*$0).source) + 1)
  let %19 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %20 = max0((-%19.start + call "oak_core::source::Source::length"((*$0).source)))
  let %21 = ((*$0) with {chunk: %19, offset: call "oak_core::source::Source::length"((*$0).source), scratch: lv("L0", "v0")})
  let %22 = call "str::starts_with"(rv(slice((*%19.text), %20, len((*%19.text)))), $1)
  let %23 = ((*$0) with {chunk: %19, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %24 = true(validrange((*%19.text), len((*%19.text)), len((*%19.text))))
  let %25 = ((*$0) with {chunk: %19, offset: call "oak_core::source::Source::length"((*$0).source), scratch: lv("L0", "v1")})
  let %26 = true(call "str::is_char_boundary"(%19.text, (%20 + n("C0"))))
  let %27 = call "str::starts_with"(rv(slice((*%19.text), len((*%19.text)), len((*%19.text)))), $1)
  let %28 = true(validrange((*%19.text), (%20 + n("C0")), len((*%19.text))))
  let %29 = call "str::starts_with"(rv(slice((*%19.text), (%20 + n("C0")), len((*%19.text)))), $1)
  let %30 = ((*$0).chunk.start - call "oak_core::source::Source::length"((*$0).source) + len((*(*$0).chunk.text)))
  let %31 = ((*$0).chunk.start + len((*(*$0).chunk.text)) < call "oak_core::source::Source::length"((*$0).source))
  let %32 = ((*$0).chunk.start + len((*(*$0).chunk.text)) == call "oak_core::source::Source::length"((*$0).source))
  let %33 = (-(*$0).chunk.start + call "oak_core::source::Source::length"((*$0).source))
  let %34 = true(validrange((*(*$0).chunk.text), %33, len((*(*$0).chunk.text))))
  let %35 = ((*$0).chunk.start + len((*(*$0).chunk.text)) < call "oak_core::source::Source::length"((*$0).source) + len((*$1)))
  let %36 = call "str::starts_with"(rv(slice((*(*$0).chunk.text), %33, len((*(*$0).chunk.text)))), $1)
  let %37 = ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source), scratch: slice((*(*$0).chunk.text), %33, len((*(*$0).chunk.text)))})
  let %38 = ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source)})
  let %39 = ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source), scratch: ""})
  let %40 = ((*$0).chunk.start + len((*(*$0).chunk.text)) < call "oak_core::source::Source::length"((*$0).source) + n("C0") + 1)
  let %41 = true(validrange((*(*$0).chunk.text), len((*(*$0).chunk.text)), len((*(*$0).chunk.text))))
  let %42 = slice((*(*$0).chunk.text), len((*(*$0).chunk.text)), len((*(*$0).chunk.text)))
  let %43 = (-(*$0).chunk.start + call "oak_core::source::Source::length"((*$0).source) + n("C0"))
  let %44 = true(validrange((*(*$0).chunk.text), %43, len((*(*$0).chunk.text))))
  let %45 = ((*$0).chunk.start + len((*(*$0).chunk.text)) < call "oak_core::source::Source::length"((*$0).source) + len((*$1)) + n("C0"))
  let %46 = call "str::starts_with"(rv(slice((*(*$0).chunk.text), %43, len((*(*$0).chunk.text)))), $1)
  let %47 = ((*$0).offset < (*$0).chunk.start + len((*(*$0).chunk.text)) + 1)
  let %48 = ((*$0).offset == (*$0).chunk.start + len((*(*$0).chunk.text)))
  let %49 = call "str::is_char_boundary"((*$0).chunk.text, (-(*$0).chunk.start + (*$0).offset))
  let %50 = true(validrange((*(*$0).chunk.text), (-(*$0).chunk.start + (*$0).offset), len((*(*$0).chunk.text))))
  let %51 = ((*$0).offset + len((*$1)) < (*$0).chunk.start + len((*(*$0).chunk.text)) + 1)
  let %52 = slice((*(*$0).chunk.text), (-(*$0).chunk.start + (*$0).offset), len((*(*$0).chunk.text)))
  let %53 = ((*$0).offset + n("C0") < (*$0).chunk.start + len((*(*$0).chunk.text)))
  let %54 = call "str::is_char_boundary"((*$0).chunk.text, (-(*$0).chunk.start + (*$0).offset + n("C0")))
  let %55 = true(validrange((*(*$0).chunk.text), (-(*$0).chunk.start + (*$0).offset + n("C0")), len((*(*$0).chunk.text))))
  let %56 = ((*$0).offset + len((*$1)) + n("C0") < (*$0).chunk.start + len((*(*$0).chunk.text)) + 1)
  let %57 = slice((*(*$0).chunk.text), (-(*$0).chunk.start + (*$0).offset + n("C0")), len((*(*$0).chunk.text)))
  let %58 = ((*$0).offset < call "oak_core::source::Source::length"((*$0).source))
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if true(%3)
  if %4
  if %5
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @0 | v0 from (%2.start + len((*%2.text))) | v1 from %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if not %7
  loop L0 | v0 from (%2.start + len((*%2.text))) | v1 from %6
  do %8
  then v0 := (%8.start + len((*%8.text)))
  then v1 := cat(<lv("L0", "v1"), %8.text>)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if true(%3)
  if %4
  if %5
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @0 | v0 from (%2.start + len((*%2.text))) | v1 from %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if true(%3)
  if %4
  if not %5
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"(rv(%6), $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"(rv(%6), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if true(%3)
  if not %4
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if true(%3)
  if not %4
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop L0 @1 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if not %9
  loop L0 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do %10
  then v0 := cat(<lv("L0", "v0"), %10.text>)
  then v1 := (%10.start + len((*%10.text)))
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if true(%3)
  if not %4
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop L0 @1 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if %11
  if %12
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @2
  loop L0 @3 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
pass C0
  if not %11
  if not true(%14)
  loop C0 @2,4,5
  do %14
pass L0
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if not %9
  loop C0 @2,4,5
  loop L0 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do %10
  then v0 := cat(<lv("L0", "v0"), %10.text>)
  then v1 := (%10.start + len((*%10.text)))
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if %11
  if %12
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @2
  loop L0 @3 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if %11
  if %12
  if (len((*$1)) < 1)
  loop C0 @2
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %15
  set $0 := ((*$0) with {chunk: %2})
  ret %15
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if %11
  if not %12
  if (len((*$1)) < 1)
  loop C0 @2
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if %11
  if not %12
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @2
  loop L0 @6 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if not %9
  loop C0 @2,4,5
  loop L0 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do %10
  then v0 := cat(<lv("L0", "v0"), %10.text>)
  then v1 := (%10.start + len((*%10.text)))
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if %11
  if not %12
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @2
  loop L0 @6 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if %17
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @2
  loop L0 @7 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if %17
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @2
  loop L0 @7 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if not %17
  loop C0 @2
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "str::starts_with"(rv(%13), $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"(rv(%13), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if (len((*$1)) < 1)
  loop C0 @2
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @2
  loop L0 @8 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if ((*$0).offset < (*$0).chunk.start)
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @2
  loop L0 @8 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if not %18
  if true(call "str::is_char_boundary"(%19.text, %20))
  if true(validrange((*%19.text), %20, len((*%19.text))))
  if (len((*%19.text)) < %20 + len((*$1)))
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop L0 @9 | v0 from slice((*%19.text), %20, len((*%19.text))) | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if not %9
  loop L0 | v0 from slice((*%19.text), %20, len((*%19.text))) | v1 from (%19.start + len((*%19.text)))
  do %10
  then v0 := cat(<lv("L0", "v0"), %10.text>)
  then v1 := (%10.start + len((*%10.text)))
case
  if not %1
  if not %18
  if true(call "str::is_char_boundary"(%19.text, %20))
  if true(validrange((*%19.text), %20, len((*%19.text))))
  if (len((*%19.text)) < %20 + len((*$1)))
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop L0 @9 | v0 from slice((*%19.text), %20, len((*%19.text))) | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if not %18
  if true(call "str::is_char_boundary"(%19.text, %20))
  if true(validrange((*%19.text), %20, len((*%19.text))))
  if not (len((*%19.text)) < %20 + len((*$1)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do %22
  set $0 := %23
  ret %22
case
  if not %1
  if not %18
  if true(call "str::is_char_boundary"(%19.text, %20))
  if not true(validrange((*%19.text), %20, len((*%19.text))))
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::starts_with"("", $1)
  set $0 := %23
  ret call "str::starts_with"("", $1)
case
  if not %1
  if not %18
  if true(call "str::is_char_boundary"(%19.text, %20))
  if not true(validrange((*%19.text), %20, len((*%19.text))))
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop L0 @10 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if not %9
  loop L0 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do %10
  then v0 := cat(<lv("L0", "v0"), %10.text>)
  then v1 := (%10.start + len((*%10.text)))
case
  if not %1
  if not %18
  if true(call "str::is_char_boundary"(%19.text, %20))
  if not true(validrange((*%19.text), %20, len((*%19.text))))
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop L0 @10 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if %24
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop C0 @11
  loop L0 @12 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := %25
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
pass C0
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if not %26
  loop C0 @11,13
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
pass L0
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if not %7
  loop C0 @11,13
  loop L0 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do %8
  then v0 := (%8.start + len((*%8.text)))
  then v1 := cat(<lv("L0", "v1"), %8.text>)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if %24
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop C0 @11
  loop L0 @12 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := %25
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if %24
  if (len((*$1)) < 1)
  loop C0 @11
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do %27
  set $0 := %23
  ret %27
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if not %24
  if (len((*$1)) < 1)
  loop C0 @11
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::starts_with"("", $1)
  set $0 := %23
  ret call "str::starts_with"("", $1)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if not %24
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @11
  loop L0 @14 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if not %9
  loop C0 @11,13
  loop L0 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do %10
  then v0 := cat(<lv("L0", "v0"), %10.text>)
  then v1 := (%10.start + len((*%10.text)))
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if not %24
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @11
  loop L0 @14 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if %28
  if (len((*%19.text)) < %20 + len((*$1)) + n("C0"))
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop C0 @11
  loop L0 @15 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := %25
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if %28
  if (len((*%19.text)) < %20 + len((*$1)) + n("C0"))
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop C0 @11
  loop L0 @15 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := %25
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if %28
  if not (len((*%19.text)) < %20 + len((*$1)) + n("C0"))
  loop C0 @11
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do %29
  set $0 := %23
  ret %29
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if not %28
  if (len((*$1)) < 1)
  loop C0 @11
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "str::starts_with"("", $1)
  set $0 := %23
  ret call "str::starts_with"("", $1)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if not %28
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @11
  loop L0 @16 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if not %18
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if not %28
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @11
  loop L0 @16 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if %18
  if not %31
  if not %32
  if true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %34
  if %35
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "oak_core::source::Source::length"((*$0).source)
  do %36
  set $0 := %37
  ret %36
case
  if not %1
  if %18
  if not %31
  if not %32
  if true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %34
  if not %35
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do %36
  set $0 := %38
  ret %36
case
  if not %1
  if %18
  if not %31
  if not %32
  if true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %34
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::starts_with"("", $1)
  set $0 := %38
  ret call "str::starts_with"("", $1)
case
  if not %1
  if %18
  if not %31
  if not %32
  if true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %34
  if not (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(""), $1)
  set $0 := %39
  ret call "str::starts_with"(rv(""), $1)
case
  if not %1
  if %18
  if not %31
  if not %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %40
  if %41
  if not (len((*$1)) < 1)
  loop C0 @17
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(%42), $1)
  set $0 := ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source), scratch: %42})
  ret call "str::starts_with"(rv(%42), $1)
pass C0
  if not %40
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %43))
  loop C0 @17
  do call "str::is_char_boundary"((*$0).chunk.text, %43)
case
  if not %1
  if %18
  if not %31
  if not %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %40
  if %41
  if (len((*$1)) < 1)
  loop C0 @17
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::starts_with"(rv(%42), $1)
  set $0 := %38
  ret call "str::starts_with"(rv(%42), $1)
case
  if not %1
  if %18
  if not %31
  if not %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %40
  if not %41
  if (len((*$1)) < 1)
  loop C0 @17
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::starts_with"("", $1)
  set $0 := %38
  ret call "str::starts_with"("", $1)
case
  if not %1
  if %18
  if not %31
  if not %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %40
  if not %41
  if not (len((*$1)) < 1)
  loop C0 @17
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(""), $1)
  set $0 := %39
  ret call "str::starts_with"(rv(""), $1)
case
  if not %1
  if %18
  if not %31
  if not %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %40
  if true(call "str::is_char_boundary"((*$0).chunk.text, %43))
  if %44
  if %45
  loop C0 @17
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::is_char_boundary"((*$0).chunk.text, %43)
  do call "oak_core::source::Source::length"((*$0).source)
  do %46
  set $0 := ((*$0) with {offset: call "oak_core::source::Source::length"((*$0).source), scratch: slice((*(*$0).chunk.text), %43, len((*(*$0).chunk.text)))})
  ret %46
case
  if not %1
  if %18
  if not %31
  if not %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %40
  if true(call "str::is_char_boundary"((*$0).chunk.text, %43))
  if %44
  if not %45
  loop C0 @17
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::is_char_boundary"((*$0).chunk.text, %43)
  do %46
  set $0 := %38
  ret %46
case
  if not %1
  if %18
  if not %31
  if not %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %40
  if true(call "str::is_char_boundary"((*$0).chunk.text, %43))
  if not %44
  if (len((*$1)) < 1)
  loop C0 @17
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::is_char_boundary"((*$0).chunk.text, %43)
  do call "str::starts_with"("", $1)
  set $0 := %38
  ret call "str::starts_with"("", $1)
case
  if not %1
  if %18
  if not %31
  if not %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %40
  if true(call "str::is_char_boundary"((*$0).chunk.text, %43))
  if not %44
  if not (len((*$1)) < 1)
  loop C0 @17
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::is_char_boundary"((*$0).chunk.text, %43)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(""), $1)
  set $0 := %39
  ret call "str::starts_with"(rv(""), $1)
case
  if not %1
  if %18
  if not %31
  if %32
  if true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %34
  if %35
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "oak_core::source::Source::length"((*$0).source)
  do %36
  set $0 := %37
  ret %36
case
  if not %1
  if %18
  if not %31
  if %32
  if true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %34
  if not %35
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do %36
  set $0 := %38
  ret %36
case
  if not %1
  if %18
  if not %31
  if %32
  if true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %34
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::starts_with"("", $1)
  set $0 := %38
  ret call "str::starts_with"("", $1)
case
  if not %1
  if %18
  if not %31
  if %32
  if true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %34
  if not (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(""), $1)
  set $0 := %39
  ret call "str::starts_with"(rv(""), $1)
case
  if not %1
  if %18
  if not %31
  if %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %34
  if %35
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "oak_core::source::Source::length"((*$0).source)
  do %36
  set $0 := %37
  ret %36
case
  if not %1
  if %18
  if not %31
  if %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if %34
  if not %35
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do %36
  set $0 := %38
  ret %36
case
  if not %1
  if %18
  if not %31
  if %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %34
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "str::starts_with"("", $1)
  set $0 := %38
  ret call "str::starts_with"("", $1)
case
  if not %1
  if %18
  if not %31
  if %32
  if not true(call "str::is_char_boundary"((*$0).chunk.text, %33))
  if not %34
  if not (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::is_char_boundary"((*$0).chunk.text, %33)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(""), $1)
  set $0 := %39
  ret call "str::starts_with"(rv(""), $1)
case
  if not %1
  if %18
  if %31
  if true(call "str::is_char_boundary"(%19.text, %20))
  if true(validrange((*%19.text), %20, len((*%19.text))))
  if (len((*%19.text)) < %20 + len((*$1)))
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop L0 @18 | v0 from slice((*%19.text), %20, len((*%19.text))) | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if %18
  if %31
  if true(call "str::is_char_boundary"(%19.text, %20))
  if true(validrange((*%19.text), %20, len((*%19.text))))
  if (len((*%19.text)) < %20 + len((*$1)))
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop L0 @18 | v0 from slice((*%19.text), %20, len((*%19.text))) | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if %18
  if %31
  if true(call "str::is_char_boundary"(%19.text, %20))
  if true(validrange((*%19.text), %20, len((*%19.text))))
  if not (len((*%19.text)) < %20 + len((*$1)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do %22
  set $0 := %23
  ret %22
case
  if not %1
  if %18
  if %31
  if true(call "str::is_char_boundary"(%19.text, %20))
  if not true(validrange((*%19.text), %20, len((*%19.text))))
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::starts_with"("", $1)
  set $0 := %23
  ret call "str::starts_with"("", $1)
case
  if not %1
  if %18
  if %31
  if true(call "str::is_char_boundary"(%19.text, %20))
  if not true(validrange((*%19.text), %20, len((*%19.text))))
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop L0 @19 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if %18
  if %31
  if true(call "str::is_char_boundary"(%19.text, %20))
  if not true(validrange((*%19.text), %20, len((*%19.text))))
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop L0 @19 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if %24
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop C0 @13
  loop L0 @20 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := %25
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if %24
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop C0 @13
  loop L0 @20 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := %25
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if %24
  if (len((*$1)) < 1)
  loop C0 @13
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do %27
  set $0 := %23
  ret %27
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if not %24
  if (len((*$1)) < 1)
  loop C0 @13
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::starts_with"("", $1)
  set $0 := %23
  ret call "str::starts_with"("", $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if not %24
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @13
  loop L0 @21 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if (len((*%19.text)) < %20 + n("C0") + 1)
  if not %24
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @13
  loop L0 @21 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if %28
  if (len((*%19.text)) < %20 + len((*$1)) + n("C0"))
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop C0 @13
  loop L0 @22 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := %25
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if %28
  if (len((*%19.text)) < %20 + len((*$1)) + n("C0"))
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop C0 @13
  loop L0 @22 | v0 from (%19.start + len((*%19.text))) | v1 from slice((*%19.text), (%20 + n("C0")), len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := %25
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if %28
  if not (len((*%19.text)) < %20 + len((*$1)) + n("C0"))
  loop C0 @13
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do %29
  set $0 := %23
  ret %29
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if not %28
  if (len((*$1)) < 1)
  loop C0 @13
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "str::starts_with"("", $1)
  set $0 := %23
  ret call "str::starts_with"("", $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if not %28
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @13
  loop L0 @23 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if not %1
  if %18
  if %31
  if not true(call "str::is_char_boundary"(%19.text, %20))
  if not (len((*%19.text)) < %20 + n("C0") + 1)
  if %26
  if not %28
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @13
  loop L0 @23 | v0 from "" | v1 from (%19.start + len((*%19.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %19
  do call "str::is_char_boundary"(%19.text, %20)
  do call "str::is_char_boundary"(%19.text, (%20 + n("C0")))
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := %21
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if true(%3)
  if %4
  if %5
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @24 | v0 from (%2.start + len((*%2.text))) | v1 from %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if true(%3)
  if %4
  if %5
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @24 | v0 from (%2.start + len((*%2.text))) | v1 from %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if true(%3)
  if %4
  if not %5
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"(rv(%6), $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"(rv(%6), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if true(%3)
  if not %4
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if true(%3)
  if not %4
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop L0 @25 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if true(%3)
  if not %4
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop L0 @25 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if %11
  if %12
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @4
  loop L0 @26 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if %11
  if %12
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @4
  loop L0 @26 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if %11
  if %12
  if (len((*$1)) < 1)
  loop C0 @4
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %15
  set $0 := ((*$0) with {chunk: %2})
  ret %15
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if %11
  if not %12
  if (len((*$1)) < 1)
  loop C0 @4
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if %11
  if not %12
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @4
  loop L0 @27 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if %11
  if not %12
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @4
  loop L0 @27 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if %17
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @4
  loop L0 @28 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if %17
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @4
  loop L0 @28 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if not %17
  loop C0 @4
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "str::starts_with"(rv(%13), $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"(rv(%13), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if (len((*$1)) < 1)
  loop C0 @4
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @4
  loop L0 @29 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if not %47
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @4
  loop L0 @29 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if true(%49)
  if %50
  if %51
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "str::starts_with"(rv(%52), $1)
  ret call "str::starts_with"(rv(%52), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if true(%49)
  if %50
  if not %51
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @30 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from %52
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if not %7
  loop L0 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from %52
  do %8
  then v0 := (%8.start + len((*%8.text)))
  then v1 := cat(<lv("L0", "v1"), %8.text>)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if true(%49)
  if %50
  if not %51
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @30 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from %52
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if true(%49)
  if not %50
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "str::starts_with"("", $1)
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if true(%49)
  if not %50
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @31 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if not %7
  loop L0 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do %8
  then v0 := (%8.start + len((*%8.text)))
  then v1 := cat(<lv("L0", "v1"), %8.text>)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if true(%49)
  if not %50
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @31 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if %53
  if true(%54)
  if %55
  if %56
  loop C0 @32
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do %54
  do call "str::starts_with"(rv(%57), $1)
  ret call "str::starts_with"(rv(%57), $1)
pass C0
  if %53
  if not true(%54)
  loop C0 @32
  do %54
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if %53
  if true(%54)
  if %55
  if not %56
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @32
  loop L0 @33 | v0 from %57 | v1 from ((*$0).chunk.start + len((*(*$0).chunk.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do %54
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if not %9
  loop C0 @32
  loop L0 | v0 from %57 | v1 from ((*$0).chunk.start + len((*(*$0).chunk.text)))
  do %10
  then v0 := cat(<lv("L0", "v0"), %10.text>)
  then v1 := (%10.start + len((*%10.text)))
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if %53
  if true(%54)
  if %55
  if not %56
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @32
  loop L0 @33 | v0 from %57 | v1 from ((*$0).chunk.start + len((*(*$0).chunk.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do %54
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if %53
  if true(%54)
  if not %55
  if (len((*$1)) < 1)
  loop C0 @32
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do %54
  do call "str::starts_with"("", $1)
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if %53
  if true(%54)
  if not %55
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop C0 @32
  loop L0 @34 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do %54
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
pass L0
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if not %7
  loop C0 @32
  loop L0 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do %8
  then v0 := (%8.start + len((*%8.text)))
  then v1 := cat(<lv("L0", "v1"), %8.text>)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if %53
  if true(%54)
  if not %55
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop C0 @32
  loop L0 @34 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do %54
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if not %53
  if %41
  if (len((*$1)) < 1)
  loop C0 @32
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "str::starts_with"(rv(%42), $1)
  ret call "str::starts_with"(rv(%42), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if not %53
  if %41
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @32
  loop L0 @35 | v0 from %57 | v1 from ((*$0).chunk.start + len((*(*$0).chunk.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if not %53
  if %41
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @32
  loop L0 @35 | v0 from %57 | v1 from ((*$0).chunk.start + len((*(*$0).chunk.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if not %53
  if not %41
  if (len((*$1)) < 1)
  loop C0 @32
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "str::starts_with"("", $1)
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if not %53
  if not %41
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop C0 @32
  loop L0 @36 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if not %48
  if not true(%49)
  if not %53
  if not %41
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop C0 @32
  loop L0 @36 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if true(%49)
  if %50
  if %51
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "str::starts_with"(rv(%52), $1)
  ret call "str::starts_with"(rv(%52), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if true(%49)
  if %50
  if not %51
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @37 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from %52
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if true(%49)
  if %50
  if not %51
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @37 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from %52
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if true(%49)
  if not %50
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "str::starts_with"("", $1)
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if true(%49)
  if not %50
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @38 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if true(%49)
  if not %50
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @38 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if not true(%49)
  if %50
  if %51
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "str::starts_with"(rv(%52), $1)
  ret call "str::starts_with"(rv(%52), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if not true(%49)
  if %50
  if not %51
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @39 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from %52
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if not true(%49)
  if %50
  if not %51
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @39 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from %52
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if not true(%49)
  if not %50
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "str::starts_with"("", $1)
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if not true(%49)
  if not %50
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @40 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if not %58
  if not true(%49)
  if not %50
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @40 | v0 from ((*$0).chunk.start + len((*(*$0).chunk.text))) | v1 from ""
  do call "oak_core::source::Source::length"((*$0).source)
  do %49
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if true(%3)
  if %4
  if %5
  if (len((*$1)) < len(lv("L0", "v1")) + 1)
  loop L0 @41 | v0 from (%2.start + len((*%2.text))) | v1 from %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if true(%3)
  if %4
  if %5
  if not (len((*$1)) < len(lv("L0", "v1")) + 1)
  if %7
  loop L0 @41 | v0 from (%2.start + len((*%2.text))) | v1 from %6
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v1")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v1")})
  ret call "str::starts_with"(rv(lv("L0", "v1")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if true(%3)
  if %4
  if not %5
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"(rv(%6), $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"(rv(%6), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if true(%3)
  if not %4
  if (len((*$1)) < 1)
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if true(%3)
  if not %4
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop L0 @42 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if true(%3)
  if not %4
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop L0 @42 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if %11
  if %12
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @5
  loop L0 @43 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if %11
  if %12
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @5
  loop L0 @43 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if %11
  if %12
  if (len((*$1)) < 1)
  loop C0 @5
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %15
  set $0 := ((*$0) with {chunk: %2})
  ret %15
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if %11
  if not %12
  if (len((*$1)) < 1)
  loop C0 @5
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if %11
  if not %12
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @5
  loop L0 @44 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if %11
  if not %12
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @5
  loop L0 @44 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if %17
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @5
  loop L0 @45 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if %17
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @5
  loop L0 @45 | v0 from %13 | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if not %11
  if true(%14)
  if %16
  if not %17
  loop C0 @5
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "str::starts_with"(rv(%13), $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"(rv(%13), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if (len((*$1)) < 1)
  loop C0 @5
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "str::starts_with"("", $1)
  set $0 := ((*$0) with {chunk: %2})
  ret call "str::starts_with"("", $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if not (len((*$1)) < 1)
  if (len((*$1)) < len(lv("L0", "v0")) + 1)
  loop C0 @5
  loop L0 @46 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)
case
  if %1
  if not ((*$0).offset < (*$0).chunk.start)
  if %47
  if %48
  if %58
  if not true(%3)
  if not %11
  if true(%14)
  if not %16
  if not (len((*$1)) < 1)
  if not (len((*$1)) < len(lv("L0", "v0")) + 1)
  if %9
  loop C0 @5
  loop L0 @46 | v0 from "" | v1 from (%2.start + len((*%2.text)))
  do call "oak_core::source::Source::length"((*$0).source)
  do %2
  do %3
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do call "str::starts_with"(rv(lv("L0", "v0")), $1)
  set $0 := ((*$0) with {chunk: %2, scratch: lv("L0", "v0")})
  ret call "str::starts_with"(rv(lv("L0", "v0")), $1)

fn oak_core::source::cursor::SourceCursor::take_while
  let %1 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0"))
  let %2 = (call "oak_core::source::Source::length"((*$0).source) - lv("L0", "v2").start)
  let %3 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v2").start)
  let %4 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %5 = max0((-%4.start + call "oak_core::source::Source::length"((*$0).source)))
  let %6 = ((*$0) with {chunk: %4, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %7 = new "range"{start: (*$0).offset, end: call "oak_core::source::Source::length"((*$0).source)}
  let %8 = (len(call "str::chars"(slice((*%4.text), %5, len((*%4.text))))) < n("L1") + 1)
  let %9 = (call "oak_core::source::Source::length"((*$0).source) + lv("L1", "v0"))
  let %10 = call "str::chars"(slice((*%4.text), %5, len((*%4.text))))[n("L1")]
  let %11 = call "core::ops::function::FnMut::call_mut"(rv(lv("L1", "v1")), tup{0: %10})
  let %12 = sum(j0, 0, n("L1"), call "char::len_utf8"(call "str::chars"(slice((*%4.text), %5, len((*%4.text))))[?j0]))
  let %13 = (lv("L0", "v0") < len((*lv("L0", "v2").text)) + lv("L0", "v2").start + 1)
  let %14 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v0"))
  let %15 = call "str::chars"(slice((*%14.text), max0((-%14.start + lv("L0", "v0"))), len((*%14.text))))
  let %16 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + lv("L1", "v0") + 1)
  let %17 = call "core::ops::function::FnMut::call_mut"(rv(lv("L1", "v1")), tup{0: %15[n("L1")]})
  let %18 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + 1)
  let %19 = (lv("L0", "v0") == len((*lv("L0", "v2").text)) + lv("L0", "v2").start)
  let %20 = call "str::chars"(slice((*lv("L0", "v2").text), (lv("L0", "v0") - lv("L0", "v2").start), len((*lv("L0", "v2").text))))
  let %21 = call "core::ops::function::FnMut::call_mut"(rv(lv("L1", "v1")), tup{0: %20[n("L1")]})
  let %22 = (call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v2").text)) + lv("L0", "v2").start + 1)
  let %23 = (call "oak_core::source::Source::length"((*$0).source) == len((*lv("L0", "v2").text)) + lv("L0", "v2").start)
  let %24 = call "str::chars"(slice((*lv("L0", "v2").text), %2, len((*lv("L0", "v2").text))))
  let %25 = call "core::ops::function::FnMut::call_mut"(rv(lv("L1", "v1")), tup{0: %24[n("L1")]})
  let %26 = (%12 + call "oak_core::source::Source::length"((*$0).source))
  let %27 = (lv("L0", "v0") + sum(j0, 0, n("L1"), call "char::len_utf8"(%15[?j0])))
  let %28 = ((*$0) with {chunk: %14, offset: (lv("L0", "v0") + lv("L1", "v0"))})
  let %29 = new "range"{start: (*$0).offset, end: (lv("L0", "v0") + lv("L1", "v0"))}
  let %30 = (lv("L0", "v0") + sum(j0, 0, n("L1"), call "char::len_utf8"(%20[?j0])))
  let %31 = (call "oak_core::source::Source::length"((*$0).source) + sum(j0, 0, n("L1"), call "char::len_utf8"(%24[?j0])))
case
  if %1
  if %3
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
pass L0
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if %8
  if (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @0 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %9
  then v1 := lv("L1", "v1")
  then v2 := %4
pass L1
  if not %8
  if true(%11)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @0,1 | v0 from 0 | v1 from lv("L0", "v1")
  do %11
  do call "char::len_utf8"(%10)
  then v0 := (%12 + call "char::len_utf8"(%10))
  then v1 := post(0, %11)
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %13
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if not (n("L1") < len(%15))
  if not %16
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @2 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (lv("L0", "v0") + lv("L1", "v0"))
  then v1 := lv("L1", "v1")
  then v2 := %14
pass L1
  if (n("L1") < len(%15))
  if true(%17)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @2,3,4 | v0 from 0 | v1 from lv("L0", "v1")
  do %17
  do call "char::len_utf8"(%15[n("L1")])
  then v0 := (call "char::len_utf8"(%15[n("L1")]) + sum(j0, 0, n("L1"), call "char::len_utf8"(%15[?j0])))
  then v1 := post(0, %17)
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %13
  if (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if not %18
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := %14
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %13
  if not %19
  if not (n("L1") < len(%20))
  if not %16
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @5 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (lv("L0", "v0") + lv("L1", "v0"))
  then v1 := lv("L1", "v1")
  then v2 := lv("L0", "v2")
pass L1
  if (n("L1") < len(%20))
  if true(%21)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @5 | v0 from 0 | v1 from lv("L0", "v1")
  do %21
  do call "char::len_utf8"(%20[n("L1")])
  then v0 := (call "char::len_utf8"(%20[n("L1")]) + sum(j0, 0, n("L1"), call "char::len_utf8"(%20[?j0])))
  then v1 := post(0, %21)
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %13
  if %19
  if not %18
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if not (n("L1") < len(%15))
  if not %16
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @3 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (lv("L0", "v0") + lv("L1", "v0"))
  then v1 := lv("L1", "v1")
  then v2 := %14
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %13
  if %19
  if not %18
  if (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := %14
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if not (n("L1") < len(%15))
  if not %16
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @4 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (lv("L0", "v0") + lv("L1", "v0"))
  then v1 := lv("L1", "v1")
  then v2 := %14
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if not %18
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := %14
pass L0
  if %1
  if not %3
  if not %22
  if not (len((*%4.text)) < %5 + 1)
  if %8
  if (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @1 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %9
  then v1 := lv("L1", "v1")
  then v2 := %4
pass L0
  if %1
  if not %3
  if %22
  if not %23
  if not (n("L1") < len(%24))
  if (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @6 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %9
  then v1 := lv("L1", "v1")
  then v2 := lv("L0", "v2")
pass L1
  if (n("L1") < len(%24))
  if true(%25)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @6 | v0 from 0 | v1 from lv("L0", "v1")
  do %25
  do call "char::len_utf8"(%24[n("L1")])
  then v0 := (call "char::len_utf8"(%24[n("L1")]) + sum(j0, 0, n("L1"), call "char::len_utf8"(%24[?j0])))
  then v1 := post(0, %25)
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if not %8
  if not true(%11)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @0 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %11
  set $0 := ((*$0) with {chunk: %4, offset: %26})
  ret new "range"{start: (*$0).offset, end: %26}
case
  if %1
  if %3
  if not (len((*%4.text)) < %5 + 1)
  if %8
  if not (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @0 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %4, offset: %9})
  ret new "range"{start: (*$0).offset, end: %9}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %13
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if (n("L1") < len(%15))
  if not true(%17)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @2 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do %17
  set $0 := ((*$0) with {chunk: %14, offset: %27})
  ret new "range"{start: (*$0).offset, end: %27}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %13
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if not (n("L1") < len(%15))
  if %16
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @2 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %28
  ret %29
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %13
  if (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if %18
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %14, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %13
  if not %19
  if (n("L1") < len(%20))
  if not true(%21)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @5 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: %30})
  ret new "range"{start: (*$0).offset, end: %30}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %13
  if not %19
  if not (n("L1") < len(%20))
  if %16
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @5 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: (lv("L0", "v0") + lv("L1", "v0"))})
  ret %29
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %13
  if %19
  if not %18
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if (n("L1") < len(%15))
  if not true(%17)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @3 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do %17
  set $0 := ((*$0) with {chunk: %14, offset: %27})
  ret new "range"{start: (*$0).offset, end: %27}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %13
  if %19
  if not %18
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if not (n("L1") < len(%15))
  if %16
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @3 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %28
  ret %29
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %13
  if %19
  if %18
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if (n("L1") < len(%15))
  if not true(%17)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @4 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do %17
  set $0 := ((*$0) with {chunk: %14, offset: %27})
  ret new "range"{start: (*$0).offset, end: %27}
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if not (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if not (n("L1") < len(%15))
  if %16
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @4 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %28
  ret %29
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if (len((*%14.text)) < max0((-%14.start + lv("L0", "v0"))) + 1)
  if %18
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %14
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %14, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if %1
  if not %3
  if not %22
  if (len((*%4.text)) < %5 + 1)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %6
  ret %7
case
  if %1
  if not %3
  if not %22
  if not (len((*%4.text)) < %5 + 1)
  if not %8
  if not true(%11)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @1 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do %11
  set $0 := ((*$0) with {chunk: %4, offset: %26})
  ret new "range"{start: (*$0).offset, end: %26}
case
  if %1
  if not %3
  if not %22
  if not (len((*%4.text)) < %5 + 1)
  if %8
  if not (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @1 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %4
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %4, offset: %9})
  ret new "range"{start: (*$0).offset, end: %9}
case
  if %1
  if not %3
  if %22
  if not %23
  if (n("L1") < len(%24))
  if not true(%25)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @6 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %25
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: %31})
  ret new "range"{start: (*$0).offset, end: %31}
case
  if %1
  if not %3
  if %22
  if not %23
  if not (n("L1") < len(%24))
  if not (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @6 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: %9})
  ret new "range"{start: (*$0).offset, end: %9}
case
  if %1
  if not %3
  if %22
  if %23
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: call "oak_core::source::Source::length"((*$0).source)})
  ret %7

fn oak_core::source::cursor::SourceCursor::take_while_byte
  let %1 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0"))
  let %2 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v2").start)
  let %3 = call "oak_core::source::Source::chunk_at"((*$0).source, call "oak_core::source::Source::length"((*$0).source))
  let %4 = max0((-%3.start + call "oak_core::source::Source::length"((*$0).source)))
  let %5 = ((*$0) with {chunk: %3, offset: call "oak_core::source::Source::length"((*$0).source)})
  let %6 = new "range"{start: (*$0).offset, end: call "oak_core::source::Source::length"((*$0).source)}
  let %7 = (call "oak_core::source::Source::length"((*$0).source) + lv("L1", "v0"))
  let %8 = call "core::ops::function::FnMut::call_mut"(rv(lv("L1", "v1")), tup{0: (*%3.text)[(%4 + n("L1"))]})
  let %9 = (lv("L0", "v0") < len((*lv("L0", "v2").text)) + lv("L0", "v2").start + 1)
  let %10 = call "oak_core::source::Source::chunk_at"((*$0).source, lv("L0", "v0"))
  let %11 = (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + n("L1") + 1)
  let %12 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + lv("L1", "v0") + 1)
  let %13 = call "core::ops::function::FnMut::call_mut"(rv(lv("L1", "v1")), tup{0: (*%10.text)[(max0((-%10.start + lv("L0", "v0"))) + n("L1"))]})
  let %14 = (call "oak_core::source::Source::length"((*$0).source) < lv("L0", "v0") + 1)
  let %15 = (lv("L0", "v0") == len((*lv("L0", "v2").text)) + lv("L0", "v2").start)
  let %16 = (lv("L0", "v0") + n("L1") < len((*lv("L0", "v2").text)) + lv("L0", "v2").start)
  let %17 = call "core::ops::function::FnMut::call_mut"(rv(lv("L1", "v1")), tup{0: (*lv("L0", "v2").text)[(lv("L0", "v0") - lv("L0", "v2").start + n("L1"))]})
  let %18 = (call "oak_core::source::Source::length"((*$0).source) < len((*lv("L0", "v2").text)) + lv("L0", "v2").start + 1)
  let %19 = (call "oak_core::source::Source::length"((*$0).source) == len((*lv("L0", "v2").text)) + lv("L0", "v2").start)
  let %20 = (call "oak_core::source::Source::length"((*$0).source) + n("L1") < len((*lv("L0", "v2").text)) + lv("L0", "v2").start)
  let %21 = call "core::ops::function::FnMut::call_mut"(rv(lv("L1", "v1")), tup{0: (*lv("L0", "v2").text)[(call "oak_core::source::Source::length"((*$0).source) - lv("L0", "v2").start + n("L1"))]})
  let %22 = (call "oak_core::source::Source::length"((*$0).source) + n("L1"))
  let %23 = ((*$0) with {chunk: %10, offset: (lv("L0", "v0") + n("L1"))})
  let %24 = new "range"{start: (*$0).offset, end: (lv("L0", "v0") + n("L1"))}
  let %25 = ((*$0) with {chunk: %10, offset: (lv("L0", "v0") + lv("L1", "v0"))})
  let %26 = new "range"{start: (*$0).offset, end: (lv("L0", "v0") + lv("L1", "v0"))}
case
  if %1
  if %2
  if (len((*%3.text)) < %4 + 1)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %5
  ret %6
pass L0
  if %1
  if %2
  if not (len((*%3.text)) < %4 + 1)
  if (len((*%3.text)) < %4 + n("L1") + 1)
  if (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @0 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %7
  then v1 := lv("L1", "v1")
  then v2 := %3
pass L1
  if not (len((*%3.text)) < %4 + n("L1") + 1)
  if true(%8)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @0,1 | v0 from 0 | v1 from lv("L0", "v1")
  do %8
  then v0 := (n("L1") + 1)
  then v1 := post(0, %8)
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %11
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @2 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (lv("L0", "v0") + lv("L1", "v0"))
  then v1 := lv("L1", "v1")
  then v2 := %10
pass L1
  if not %11
  if true(%13)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @2,3,4 | v0 from 0 | v1 from lv("L0", "v1")
  do %13
  then v0 := (n("L1") + 1)
  then v1 := post(0, %13)
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %9
  if not %15
  if not %16
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @5 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (lv("L0", "v0") + lv("L1", "v0"))
  then v1 := lv("L1", "v1")
  then v2 := lv("L0", "v2")
pass L1
  if %16
  if true(%17)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @5 | v0 from 0 | v1 from lv("L0", "v1")
  do %17
  then v0 := (n("L1") + 1)
  then v1 := post(0, %17)
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %11
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @3 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (lv("L0", "v0") + lv("L1", "v0"))
  then v1 := lv("L1", "v1")
  then v2 := %10
pass L0
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %9
  if %15
  if not %14
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %11
  if not %12
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @4 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := (lv("L0", "v0") + lv("L1", "v0"))
  then v1 := lv("L1", "v1")
  then v2 := %10
pass L0
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %14
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := %10
pass L0
  if %1
  if not %2
  if not %18
  if not (len((*%3.text)) < %4 + 1)
  if (len((*%3.text)) < %4 + n("L1") + 1)
  if (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @1 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %7
  then v1 := lv("L1", "v1")
  then v2 := %3
pass L0
  if %1
  if not %2
  if %18
  if not %19
  if not %20
  if (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @6 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  then v0 := %7
  then v1 := lv("L1", "v1")
  then v2 := lv("L0", "v2")
pass L1
  if %20
  if true(%21)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @6 | v0 from 0 | v1 from lv("L0", "v1")
  do %21
  then v0 := (n("L1") + 1)
  then v1 := post(0, %21)
case
  if %1
  if %2
  if not (len((*%3.text)) < %4 + 1)
  if (len((*%3.text)) < %4 + n("L1") + 1)
  if not (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @0 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %3, offset: %7})
  ret new "range"{start: (*$0).offset, end: %7}
case
  if %1
  if %2
  if not (len((*%3.text)) < %4 + 1)
  if not (len((*%3.text)) < %4 + n("L1") + 1)
  if not true(%8)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @0 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %3
  do %8
  set $0 := ((*$0) with {chunk: %3, offset: %22})
  ret new "range"{start: (*$0).offset, end: %22}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %11
  if not true(%13)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @2 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %13
  set $0 := %23
  ret %24
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %9
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %11
  if %12
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @2 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %25
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if not %9
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %9
  if not %15
  if %16
  if not true(%17)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @5 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %17
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: (lv("L0", "v0") + n("L1"))})
  ret %24
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %9
  if not %15
  if not %16
  if %12
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @5 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: (lv("L0", "v0") + lv("L1", "v0"))})
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %11
  if not true(%13)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @3 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %13
  set $0 := %23
  ret %24
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %9
  if %15
  if not %14
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %11
  if %12
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @3 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %25
  ret %26
case
  if not %1
  if not (lv("L0", "v0") < lv("L0", "v2").start)
  if %9
  if %15
  if %14
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if not %11
  if not true(%13)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @4 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do %13
  set $0 := %23
  ret %24
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if not (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %11
  if %12
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @4 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %25
  ret %26
case
  if not %1
  if (lv("L0", "v0") < lv("L0", "v2").start)
  if (len((*%10.text)) < max0((-%10.start + lv("L0", "v0"))) + 1)
  if %14
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %10
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %10, offset: lv("L0", "v0")})
  ret new "range"{start: (*$0).offset, end: lv("L0", "v0")}
case
  if %1
  if not %2
  if not %18
  if (len((*%3.text)) < %4 + 1)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := %5
  ret %6
case
  if %1
  if not %2
  if not %18
  if not (len((*%3.text)) < %4 + 1)
  if (len((*%3.text)) < %4 + n("L1") + 1)
  if not (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @1 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %3
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: %3, offset: %7})
  ret new "range"{start: (*$0).offset, end: %7}
case
  if %1
  if not %2
  if not %18
  if not (len((*%3.text)) < %4 + 1)
  if not (len((*%3.text)) < %4 + n("L1") + 1)
  if not true(%8)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @1 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %3
  do %8
  set $0 := ((*$0) with {chunk: %3, offset: %22})
  ret new "range"{start: (*$0).offset, end: %22}
case
  if %1
  if not %2
  if %18
  if not %19
  if %20
  if not true(%21)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @6 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do %21
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: %22})
  ret new "range"{start: (*$0).offset, end: %22}
case
  if %1
  if not %2
  if %18
  if not %19
  if not %20
  if not (lv("L1", "v0") < 0)
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  loop L1 @6 | v0 from 0 | v1 from lv("L0", "v1")
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: %7})
  ret new "range"{start: (*$0).offset, end: %7}
case
  if %1
  if not %2
  if %18
  if %19
  loop L0 | v0 from (*$0).offset | v1 from $1 | v2 from (*$0).chunk
  do call "oak_core::source::Source::length"((*$0).source)
  do call "oak_core::source::Source::length"((*$0).source)
  set $0 := ((*$0) with {chunk: lv("L0", "v2"), offset: call "oak_core::source::Source::length"((*$0).source)})
  ret %6
