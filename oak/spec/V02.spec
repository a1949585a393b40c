fn oak_vfs::line_map::LineMap::from_source
  let %1 = (call "oak_core::source::Source::length"($0) < lv("L0", "v0") + 1)
  let %2 = (lv("L0", "v0") < call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0")).start + 1)
  let %3 = (*call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0")).text)
  let %4 = (call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0")).start + len(%3))
  let %5 = (call "oak_core::source::Source::length"($0) < lv("L0", "v0") + n("L1") + 1)
  let %6 = true(validrange(%3, (-call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0")).start + lv("L0", "v0")), len(%3)))
  let %7 = (lv("L0", "v0") + n("L1") < call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0")).start + len(%3))
  let %8 = (%3[(-call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0")).start + lv("L0", "v0") + n("L1"))] == 10)
case
  if %1
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  do call "oak_core::source::Source::length"($0)
  ret new "oak_vfs::line_map::LineMap"{line_starts: lv("L0", "v1"), len: call "oak_core::source::Source::length"($0)}
pass L0
  if not %1
  if %2
  if (len(%3) < n("L1") + 1)
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  loop L1 @0 | v0 from lv("L0", "v1")
  do call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0"))
  then v0 := %4
  then v1 := lv("L1", "v0")
pass L1
  if not (len(%3) < n("L1") + 1)
  if (%3[n("L1")] == 10)
  if %5
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  loop L1 @0 | v0 from lv("L0", "v1")
  then v0 := lv("L1", "v0")
pass L1
  if not (len(%3) < n("L1") + 1)
  if (%3[n("L1")] == 10)
  if not %5
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  loop L1 @0 | v0 from lv("L0", "v1")
  then v0 := vpush(lv("L1", "v0"), (lv("L0", "v0") + n("L1") + 1))
pass L1
  if not (len(%3) < n("L1") + 1)
  if not (%3[n("L1")] == 10)
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  loop L1 @0 | v0 from lv("L0", "v1")
  then v0 := lv("L1", "v0")
pass L0
  if not %1
  if not %2
  if not %6
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  do call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0"))
  then v0 := %4
  then v1 := lv("L0", "v1")
pass L0
  if not %1
  if not %2
  if %6
  if not %7
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  loop L1 @1 | v0 from lv("L0", "v1")
  do call "oak_core::source::Source::chunk_at"($0, lv("L0", "v0"))
  then v0 := %4
  then v1 := lv("L1", "v0")
pass L1
  if %7
  if %8
  if %5
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  loop L1 @1 | v0 from lv("L0", "v1")
  then v0 := lv("L1", "v0")
pass L1
  if %7
  if %8
  if not %5
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  loop L1 @1 | v0 from lv("L0", "v1")
  then v0 := vpush(lv("L1", "v0"), (lv("L0", "v0") + n("L1") + 1))
pass L1
  if %7
  if not %8
  loop L0 | v0 from 0 | v1 from vpush(vnew(), 0)
  loop L1 @1 | v0 from lv("L0", "v1")
  then v0 := lv("L1", "v0")

fn oak_vfs::line_map::LineMap::line_col_utf16_to_offset
  let %1 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: (*$0).line_starts[$2], end: max((*$0).line_starts[($2 + 1)], (*$0).line_starts[$2])})
  let %2 = ($3 < sum(j0, 0, n("C0"), call "char::len_utf16"(call "str::chars"(%1)[?j0])) + 1)
  let %3 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: (*$0).line_starts[$2], end: max((*$0).line_starts[$2], (*$0).len)})
  let %4 = ($3 < sum(j0, 0, n("C0"), call "char::len_utf16"(call "str::chars"(%3)[?j0])) + 1)
case
  if ($2 < len((*$0).line_starts))
  if ($2 + 1 < len((*$0).line_starts))
  if (len(call "str::chars"(%1)) < n("C0") + 1)
  loop C0 @0
  do %1
  ret min((*$0).len, max((*$0).line_starts[($2 + 1)], (*$0).line_starts[$2]))
pass C0
  if not (len(call "str::chars"(%1)) < n("C0") + 1)
  if not %2
  loop C0 @0
  do call "char::len_utf16"(call "str::chars"(%1)[n("C0")])
case
  if ($2 < len((*$0).line_starts))
  if ($2 + 1 < len((*$0).line_starts))
  if not (len(call "str::chars"(%1)) < n("C0") + 1)
  if %2
  loop C0 @0
  do %1
  ret min((*$0).len, ((*$0).line_starts[$2] + sum(j0, 0, n("C0"), call "char::len_utf8"(call "str::chars"(%1)[?j0]))))
case
  if ($2 < len((*$0).line_starts))
  if not ($2 + 1 < len((*$0).line_starts))
  if not (len(call "str::chars"(%3)) < n("C0") + 1)
  if %4
  loop C0 @1
  do %3
  ret min((*$0).len, ((*$0).line_starts[$2] + sum(j0, 0, n("C0"), call "char::len_utf8"(call "str::chars"(%3)[?j0]))))
pass C0
  if not (len(call "str::chars"(%3)) < n("C0") + 1)
  if not %4
  loop C0 @1
  do call "char::len_utf16"(call "str::chars"(%3)[n("C0")])
case
  if ($2 < len((*$0).line_starts))
  if not ($2 + 1 < len((*$0).line_starts))
  if (len(call "str::chars"(%3)) < n("C0") + 1)
  loop C0 @1
  do %3
  ret min((*$0).len, max((*$0).line_starts[$2], (*$0).len))
case
  if not ($2 < len((*$0).line_starts))
  ret (*$0).len

fn oak_vfs::line_map::LineMap::line_count
case
  ret len((*$0).line_starts)

fn oak_vfs::line_map::LineMap::line_end
case
  if ($1 < len((*$0).line_starts))
  if ($1 + 1 < len((*$0).line_starts))
  ret new "core::option::Option" Some{0: max((*$0).line_starts[($1 + 1)], (*$0).line_starts[$1])}
case
  if ($1 < len((*$0).line_starts))
  if not ($1 + 1 < len((*$0).line_starts))
  ret new "core::option::Option" Some{0: max((*$0).len, (*$0).line_starts[$1])}
case
  if not ($1 < len((*$0).line_starts))
  ret new "core::option::Option" None{}

fn oak_vfs::line_map::LineMap::line_start
case
  if ($1 < len((*$0).line_starts))
  ret new "core::option::Option" Some{0: (*$0).line_starts[$1]}
case
  if not ($1 < len((*$0).line_starts))
  ret new "core::option::Option" None{}

fn oak_vfs::line_map::LineMap::offset_to_line_col_utf16
  let %1 = call "[T]::binary_search"(rv((*$0).line_starts), rv(min($2, (*$0).len)))
  let %2 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: (*$0).line_starts[0], end: min($2, (*$0).len)})
  let %3 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: (*$0).line_starts[(%1@Err.0 - 1)], end: min($2, (*$0).len)})
  let %4 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: (*$0).line_starts[%1@Ok.0], end: min($2, (*$0).len)})
case
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).line_starts) < 1)
  do %1
  do %2
  ret tup{0: 0, 1: len(call "str::encode_utf16"(%2))}
case
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if not (len((*$0).line_starts) < %1@Err.0)
  do %1
  do %3
  ret tup{0: (%1@Err.0 - 1), 1: len(call "str::encode_utf16"(%3))}
case
  if not (%1 is Err)
  if not (len((*$0).line_starts) < %1@Ok.0 + 1)
  do %1
  do %4
  ret tup{0: %1@Ok.0, 1: len(call "str::encode_utf16"(%4))}
