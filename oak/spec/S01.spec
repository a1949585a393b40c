fn <&S as oak_core::source::Source>::chunk_at
case
  do call "oak_core::source::Source::chunk_at"((*$0), $1)
  ret call "oak_core::source::Source::chunk_at"((*$0), $1)

fn <&S as oak_core::source::Source>::find_char_from
  let %1 = call "oak_core::source::Source::find_char_from"((*$0), $1, $2)
case
  do %1
  ret %1

fn <&S as oak_core::source::Source>::find_str_from
  let %1 = call "oak_core::source::Source::find_str_from"((*$0), $1, $2)
case
  do %1
  ret %1

fn <&S as oak_core::source::Source>::get_char_at
case
  do call "oak_core::source::Source::get_char_at"((*$0), $1)
  ret call "oak_core::source::Source::get_char_at"((*$0), $1)

fn <&S as oak_core::source::Source>::get_text_from
case
  do call "oak_core::source::Source::get_text_from"((*$0), $1)
  ret call "oak_core::source::Source::get_text_from"((*$0), $1)

fn <&S as oak_core::source::Source>::get_text_in
case
  do call "oak_core::source::Source::get_text_in"((*$0), $1)
  ret call "oak_core::source::Source::get_text_in"((*$0), $1)

fn <&S as oak_core::source::Source>::length
case
  do call "oak_core::source::Source::length"((*$0))
  ret call "oak_core::source::Source::length"((*$0))

fn <&S as oak_core::source::Source>::source_id
case
  do call "oak_core::source::Source::source_id"((*$0))
  ret call "oak_core::source::Source::source_id"((*$0))

fn <oak_core::source::text::SourceText as core::default::Default>::default
case
  ret new "oak_core::source::text::SourceText"{source_id: new "core::option::Option" None{}, raw: ""}

fn <oak_core::source::text::SourceText as oak_core::source::Source>::chunk_at
case
  if ($1 < len((*(*$0).raw)))
  if true(validrange((*(*$0).raw), $1, len((*(*$0).raw))))
  ret new "oak_core::source::TextChunk"{start: $1, text: rv(slice((*(*$0).raw), $1, len((*(*$0).raw))))}
case
  if ($1 < len((*(*$0).raw)))
  if not true(validrange((*(*$0).raw), $1, len((*(*$0).raw))))
  ret new "oak_core::source::TextChunk"{start: $1, text: ""}
case
  if not ($1 < len((*(*$0).raw)))
  ret new "oak_core::source::TextChunk"{start: len((*(*$0).raw)), text: ""}

fn <oak_core::source::text::SourceText as oak_core::source::Source>::get_text_in
case
  if true(validrange((*(*$0).raw), $1.start, $1.end))
  ret new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0).raw), $1.start, $1.end))}
case
  if not true(validrange((*(*$0).raw), $1.start, $1.end))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}

fn <oak_core::source::text::SourceText as oak_core::source::Source>::length
case
  ret len((*(*$0).raw))

fn <oak_core::source::text::SourceText as oak_core::source::Source>::source_id
case
  ret (*$0).source_id

fn <str as oak_core::source::Source>::chunk_at
case
  if ($1 < len((*$0)))
  ret new "oak_core::source::TextChunk"{start: $1, text: rv(slice((*$0), $1, len((*$0))))}
case
  if not ($1 < len((*$0)))
  ret new "oak_core::source::TextChunk"{start: len((*$0)), text: ""}

fn <str as oak_core::source::Source>::get_text_in
case
  if true(validrange((*$0), $1.start, $1.end))
  ret new "alloc::borrow::Cow" Borrowed{0: rv(slice((*$0), $1.start, $1.end))}
case
  if not true(validrange((*$0), $1.start, $1.end))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}

fn <str as oak_core::source::Source>::length
case
  ret len((*$0))

fn oak_core::source::Source::find_char_from
  given oak_core::source::cursor::SourceCursor::chunk_end
  given oak_core::source::cursor::SourceCursor::new_at
  given oak_core::source::cursor::SourceCursor::rest
  given oak_core::source::cursor::SourceCursor::set_position
  let %1 = call "str::find"(call "oak_core::source::cursor::SourceCursor::rest"(rv(lv("L0", "v1"))), $2)
  let %2 = (call "oak_core::source::Source::length"($0) < call "oak_core::source::cursor::SourceCursor::chunk_end"(rv(lv("L0", "v1"))) + 1)
  let %3 = call "oak_core::source::cursor::SourceCursor::set_position"(rv(lv("L0", "v1")), call "oak_core::source::cursor::SourceCursor::chunk_end"(rv(lv("L0", "v1"))))
case
  if (%1 is Some)
  loop L0 | v0 from $1 | v1 from call "oak_core::source::cursor::SourceCursor::new_at"($0, $1)
  do call "oak_core::source::cursor::SourceCursor::new_at"($0, $1)
  do call "oak_core::source::cursor::SourceCursor::rest"(rv(lv("L0", "v1")))
  do %1
  ret new "core::option::Option" Some{0: (%1@Some.0 + lv("L0", "v0"))}
pass L0
  if not (%1 is Some)
  if not %2
  loop L0 | v0 from $1 | v1 from call "oak_core::source::cursor::SourceCursor::new_at"($0, $1)
  do call "oak_core::source::cursor::SourceCursor::rest"(rv(lv("L0", "v1")))
  do %1
  do call "oak_core::source::cursor::SourceCursor::chunk_end"(rv(lv("L0", "v1")))
  do call "oak_core::source::Source::length"($0)
  do %3
  then v0 := call "oak_core::source::cursor::SourceCursor::chunk_end"(rv(lv("L0", "v1")))
  then v1 := post(0, %3)
case
  if not (%1 is Some)
  if %2
  loop L0 | v0 from $1 | v1 from call "oak_core::source::cursor::SourceCursor::new_at"($0, $1)
  do call "oak_core::source::cursor::SourceCursor::new_at"($0, $1)
  do call "oak_core::source::cursor::SourceCursor::rest"(rv(lv("L0", "v1")))
  do %1
  do call "oak_core::source::cursor::SourceCursor::chunk_end"(rv(lv("L0", "v1")))
  do call "oak_core::source::Source::length"($0)
  ret new "core::option::Option" None{}

fn oak_core::source::Source::find_str_from
  given oak_core::source::cursor::SourceCursor::find_str
  let %1 = call "oak_core::source::Source::chunk_at"($0, min($1, call "oak_core::source::Source::length"($0)))
  let %2 = call "oak_core::source::cursor::SourceCursor::find_str"(rv(new "oak_core::source::cursor::SourceCursor"{source: $0, offset: min($1, call "oak_core::source::Source::length"($0)), chunk: %1, scratch: ""}), $2)
case
  do call "oak_core::source::Source::length"($0)
  do %1
  do %2
  ret %2

fn oak_core::source::Source::get_char_at
  let %1 = ($1 < call "oak_core::source::Source::chunk_at"($0, $1).start + 1)
  let %2 = call "str::chars"(call "oak_core::source::Source::chunk_at"($0, $1).text)
  let %3 = ($1 - call "oak_core::source::Source::chunk_at"($0, $1).start)
  let %4 = len((*call "oak_core::source::Source::chunk_at"($0, $1).text))
  let %5 = true(validrange((*call "oak_core::source::Source::chunk_at"($0, $1).text), %3, %4))
  let %6 = call "str::chars"(slice((*call "oak_core::source::Source::chunk_at"($0, $1).text), %3, %4))
case
  if %1
  if (len(%2) < 1)
  do call "oak_core::source::Source::chunk_at"($0, $1)
  ret new "core::option::Option" None{}
case
  if %1
  if not (len(%2) < 1)
  do call "oak_core::source::Source::chunk_at"($0, $1)
  ret new "core::option::Option" Some{0: %2[0]}
case
  if not %1
  if not %5
  do call "oak_core::source::Source::chunk_at"($0, $1)
  ret new "core::option::Option" None{}
case
  if not %1
  if not %5
  do call "oak_core::source::Source::chunk_at"($0, $1)
  ret new "core::option::Option" Some{0: call "str::chars"("")[0]}
case
  if not %1
  if %5
  if (len(%6) < 1)
  do call "oak_core::source::Source::chunk_at"($0, $1)
  ret new "core::option::Option" None{}
case
  if not %1
  if %5
  if not (len(%6) < 1)
  do call "oak_core::source::Source::chunk_at"($0, $1)
  ret new "core::option::Option" Some{0: %6[0]}

fn oak_core::source::Source::get_text_from
  let %1 = call "oak_core::source::Source::get_text_in"($0, new "range"{start: $1, end: call "oak_core::source::Source::length"($0)})
case
  if ($1 < call "oak_core::source::Source::length"($0))
  do call "oak_core::source::Source::length"($0)
  do call "oak_core::source::Source::length"($0)
  do %1
  ret %1
case
  if not ($1 < call "oak_core::source::Source::length"($0))
  do call "oak_core::source::Source::length"($0)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}

fn oak_core::source::Source::is_empty
case
  do call "oak_core::source::Source::length"($0)
  ret (call "oak_core::source::Source::length"($0) == 0)

fn oak_core::source::Source::source_id
case
  ret new "core::option::Option" None{}

fn oak_core::source::TextChunk::end
case
  ret ((*$0).start + len((*(*$0).text)))

fn oak_core::source::TextChunk::slice_from
  let %1 = true(validrange((*(*$0).text), ($1 - (*$0).start), len((*(*$0).text))))
case
  if ($1 < (*$0).start + 1)
  ret (*$0).text
case
  if not ($1 < (*$0).start + 1)
  if %1
  ret rv(slice((*(*$0).text), ($1 - (*$0).start), len((*(*$0).text))))
case
  if not ($1 < (*$0).start + 1)
  if not %1
  ret ""

fn oak_core::source::text::SourceText::is_empty
case
  ret (len((*(*$0).raw)) == 0)

fn oak_core::source::text::SourceText::len
case
  ret len((*(*$0).raw))

fn oak_core::source::text::SourceText::new
case
  ret new "oak_core::source::text::SourceText"{source_id: new "core::option::Option" None{}, raw: $0}

fn oak_core::source::text::SourceText::new_with_id
case
  ret new "oak_core::source::text::SourceText"{source_id: new "core::option::Option" Some{0: $1}, raw: $0}

fn oak_core::source::text::SourceText::source_id
case
  ret (*$0).source_id

fn oak_core::source::text::SourceText::text
case
  ret (*$0).raw
