fn <oak_core::source::rope::RopeBuffer as oak_core::source::Source>::chunk_at
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = call "[T]::binary_search"(rv((*$0).starts), rv(min($1, max0(((*$0).len - 1)))))
case
  if ($1 < (*$0).len)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  do %1
  ret new "oak_core::source::TextChunk"{start: 0, text: (*$0).chunks[0]}
case
  if ($1 < (*$0).len)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if (%1@Ok.0 < len((*$0).chunks))
  do %1
  ret new "oak_core::source::TextChunk"{start: (*$0).starts[%1@Ok.0], text: (*$0).chunks[%1@Ok.0]}
case
  if ($1 < (*$0).len)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if (%1@Err.0 < len((*$0).starts) + 1)
  if (%1@Err.0 < len((*$0).chunks) + 1)
  do %1
  ret new "oak_core::source::TextChunk"{start: (*$0).starts[(%1@Err.0 - 1)], text: (*$0).chunks[(%1@Err.0 - 1)]}
case
  if not ($1 < (*$0).len)
  ret new "oak_core::source::TextChunk"{start: (*$0).len, text: ""}

fn <oak_core::source::rope::RopeBuffer as oak_core::source::Source>::get_text_in
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = (call "[T]::binary_search"(rv((*$0).starts), rv($1.start)) is Err)
  let %2 = call "[T]::binary_search"(rv((*$0).starts), rv($1.start))@Err.0
  let %3 = call "[T]::binary_search"(rv((*$0).starts), rv(min((*$0).len, $1.end)))
  let %4 = true(validrange((*(*$0).chunks[n("L0")]), max0(($1.start - (*$0).starts[n("L0")])), max0((-(*$0).starts[n("L0")] + min((*$0).len, $1.end)))))
  let %5 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[n("L0")]), max0(($1.start - (*$0).starts[n("L0")])), max0((-(*$0).starts[n("L0")] + min((*$0).len, $1.end))))>)
  let %6 = true(validrange((*(*$0).chunks[n("L0")]), max0(($1.start - (*$0).starts[n("L0")])), len((*(*$0).chunks[n("L0")]))))
  let %7 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[n("L0")]), max0(($1.start - (*$0).starts[n("L0")])), len((*(*$0).chunks[n("L0")])))>)
  let %8 = true(validrange((*(*$0).chunks[n("L0")]), 0, max0((-(*$0).starts[n("L0")] + min((*$0).len, $1.end)))))
  let %9 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[n("L0")]), 0, max0((-(*$0).starts[n("L0")] + min((*$0).len, $1.end))))>)
  let %10 = true(validrange((*(*$0).chunks[n("L0")]), 0, len((*(*$0).chunks[n("L0")]))))
  let %11 = max0((-(*$0).starts[(%2 + n("L0") - 1)] + min((*$0).len, $1.end)))
  let %12 = true(validrange((*(*$0).chunks[(%2 + n("L0") - 1)]), max0(($1.start - (*$0).starts[(%2 + n("L0") - 1)])), %11))
  let %13 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%2 + n("L0") - 1)]), max0(($1.start - (*$0).starts[(%2 + n("L0") - 1)])), %11)>)
  let %14 = true(validrange((*(*$0).chunks[(%2 + n("L0") - 1)]), max0(($1.start - (*$0).starts[(%2 + n("L0") - 1)])), len((*(*$0).chunks[(%2 + n("L0") - 1)]))))
  let %15 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%2 + n("L0") - 1)]), max0(($1.start - (*$0).starts[(%2 + n("L0") - 1)])), len((*(*$0).chunks[(%2 + n("L0") - 1)])))>)
  let %16 = true(validrange((*(*$0).chunks[(%2 + n("L0") - 1)]), 0, %11))
  let %17 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%2 + n("L0") - 1)]), 0, %11)>)
  let %18 = true(validrange((*(*$0).chunks[(%2 + n("L0") - 1)]), 0, len((*(*$0).chunks[(%2 + n("L0") - 1)]))))
  let %19 = call "[T]::binary_search"(rv((*$0).starts), rv($1.start))@Ok.0
  let %20 = max0((-(*$0).starts[(%19 + n("L0"))] + min((*$0).len, $1.end)))
  let %21 = true(validrange((*(*$0).chunks[(%19 + n("L0"))]), max0(($1.start - (*$0).starts[(%19 + n("L0"))])), %20))
  let %22 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%19 + n("L0"))]), max0(($1.start - (*$0).starts[(%19 + n("L0"))])), %20)>)
  let %23 = true(validrange((*(*$0).chunks[(%19 + n("L0"))]), max0(($1.start - (*$0).starts[(%19 + n("L0"))])), len((*(*$0).chunks[(%19 + n("L0"))]))))
  let %24 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%19 + n("L0"))]), max0(($1.start - (*$0).starts[(%19 + n("L0"))])), len((*(*$0).chunks[(%19 + n("L0"))])))>)
  let %25 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%19 + n("L0"))]), 0, %20)>)
  let %26 = true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, len((*(*$0).chunks[(%19 + n("L0"))]))))
  let %27 = true(validrange((*(*$0).chunks[%19]), ($1.start - (*$0).starts[%19]), (-(*$0).starts[%19] + min((*$0).len, $1.end))))
  let %28 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0).chunks[%19]), ($1.start - (*$0).starts[%19]), (-(*$0).starts[%19] + min((*$0).len, $1.end))))}
  let %29 = true(validrange((*(*$0).chunks[(%2 - 1)]), ($1.start - (*$0).starts[(%2 - 1)]), (-(*$0).starts[(%2 - 1)] + min((*$0).len, $1.end))))
  let %30 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0).chunks[(%2 - 1)]), ($1.start - (*$0).starts[(%2 - 1)]), (-(*$0).starts[(%2 - 1)] + min((*$0).len, $1.end))))}
  let %31 = true(validrange((*(*$0).chunks[0]), ($1.start - (*$0).starts[0]), (-(*$0).starts[0] + min((*$0).len, $1.end))))
  let %32 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0).chunks[0]), ($1.start - (*$0).starts[0]), (-(*$0).starts[0] + min((*$0).len, $1.end))))}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (len((*$0).starts) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*$0).starts) < 1)
  if (len((*$0).chunks) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if (len((*$0).starts) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*$0).starts) < 1)
  if (len((*$0).chunks) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if not (len((*$0).starts) == %3@Err.0)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < n("L0") + 1)
  loop L0 @0 | v0 from ""
  panics
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Err.0 == n("L0") + 1)
  if %4
  loop L0 @0 | v0 from ""
  then v0 := %5
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Err.0 == n("L0") + 1)
  if not %4
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Err.0 == n("L0") + 1)
  if %6
  loop L0 @0 | v0 from ""
  then v0 := %7
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Err.0 == n("L0") + 1)
  if not %6
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Err.0 == n("L0") + 1)
  if %8
  loop L0 @0 | v0 from ""
  then v0 := %9
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Err.0 == n("L0") + 1)
  if not %8
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Err.0 == n("L0") + 1)
  if %10
  loop L0 @0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[n("L0")]>)
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Err.0 == n("L0") + 1)
  if not %10
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if (len((*$0).starts) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*$0).starts) < 1)
  if (len((*$0).chunks) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if not (len((*$0).starts) == %3@Ok.0 + 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < n("L0") + 1)
  loop L0 @1 | v0 from ""
  panics
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Ok.0 == n("L0"))
  if %4
  loop L0 @1 | v0 from ""
  then v0 := %5
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Ok.0 == n("L0"))
  if not %4
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Ok.0 == n("L0"))
  if %6
  loop L0 @1 | v0 from ""
  then v0 := %7
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Ok.0 == n("L0"))
  if not %6
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Ok.0 == n("L0"))
  if %8
  loop L0 @1 | v0 from ""
  then v0 := %9
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Ok.0 == n("L0"))
  if not %8
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Ok.0 == n("L0"))
  if %10
  loop L0 @1 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[n("L0")]>)
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Ok.0 == n("L0"))
  if not %10
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%2 == 1)
  if (len((*$0).starts) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%2 == 1)
  if not (len((*$0).starts) < %2)
  if (len((*$0).chunks) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%2 == 1)
  if not (len((*$0).starts) == 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %2 + n("L0"))
  loop L0 @2 | v0 from ""
  panics
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == 1)
  if %12
  loop L0 @2 | v0 from ""
  then v0 := %13
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == 1)
  if not %12
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == 1)
  if %14
  loop L0 @2 | v0 from ""
  then v0 := %15
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == 1)
  if not %14
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == 1)
  if %16
  loop L0 @2 | v0 from ""
  then v0 := %17
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == 1)
  if not %16
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == 1)
  if %18
  loop L0 @2 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%2 + n("L0") - 1)]>)
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == 1)
  if not %18
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%2 == %3@Err.0)
  if (len((*$0).starts) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%2 == %3@Err.0)
  if not (len((*$0).starts) < %2)
  if (len((*$0).chunks) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%2 == %3@Err.0)
  if not (len((*$0).starts) == %3@Err.0)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %2 + n("L0"))
  loop L0 @3 | v0 from ""
  panics
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == %3@Err.0)
  if %12
  loop L0 @3 | v0 from ""
  then v0 := %13
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == %3@Err.0)
  if not %12
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == %3@Err.0)
  if %14
  loop L0 @3 | v0 from ""
  then v0 := %15
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == %3@Err.0)
  if not %14
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == %3@Err.0)
  if %16
  loop L0 @3 | v0 from ""
  then v0 := %17
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == %3@Err.0)
  if not %16
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == %3@Err.0)
  if %18
  loop L0 @3 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%2 + n("L0") - 1)]>)
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == %3@Err.0)
  if not %18
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if (%2 == %3@Ok.0 + 1)
  if (len((*$0).starts) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if (%2 == %3@Ok.0 + 1)
  if not (len((*$0).starts) < %2)
  if (len((*$0).chunks) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if not (%2 == %3@Ok.0 + 1)
  if not (len((*$0).starts) == %3@Ok.0 + 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %2 + n("L0"))
  loop L0 @4 | v0 from ""
  panics
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == %3@Ok.0 + 1)
  if %12
  loop L0 @4 | v0 from ""
  then v0 := %13
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == %3@Ok.0 + 1)
  if not %12
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == %3@Ok.0 + 1)
  if %14
  loop L0 @4 | v0 from ""
  then v0 := %15
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == %3@Ok.0 + 1)
  if not %14
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == %3@Ok.0 + 1)
  if %16
  loop L0 @4 | v0 from ""
  then v0 := %17
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == %3@Ok.0 + 1)
  if not %16
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == %3@Ok.0 + 1)
  if %18
  loop L0 @4 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%2 + n("L0") - 1)]>)
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == %3@Ok.0 + 1)
  if not %18
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%19 == 0)
  if (len((*$0).starts) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%19 == 0)
  if not (len((*$0).starts) < %19 + 1)
  if (len((*$0).chunks) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%19 == 0)
  if not (len((*$0).starts) == 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %19 + n("L0") + 1)
  loop L0 @5 | v0 from ""
  panics
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%19 + n("L0") == 0)
  if %21
  loop L0 @5 | v0 from ""
  then v0 := %22
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%19 + n("L0") == 0)
  if not %21
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%19 + n("L0") == 0)
  if %23
  loop L0 @5 | v0 from ""
  then v0 := %24
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%19 + n("L0") == 0)
  if not %23
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%19 + n("L0") == 0)
  if true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @5 | v0 from ""
  then v0 := %25
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%19 + n("L0") == 0)
  if not true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%19 + n("L0") == 0)
  if %26
  loop L0 @5 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%19 + n("L0"))]>)
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%19 + n("L0") == 0)
  if not %26
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == %19 + 1)
  if (len((*$0).starts) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == %19 + 1)
  if not (len((*$0).starts) < %19 + 1)
  if (len((*$0).chunks) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == %19 + 1)
  if not (len((*$0).starts) == %3@Err.0)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %19 + n("L0") + 1)
  loop L0 @6 | v0 from ""
  panics
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Err.0 == %19 + n("L0") + 1)
  if %21
  loop L0 @6 | v0 from ""
  then v0 := %22
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Err.0 == %19 + n("L0") + 1)
  if not %21
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Err.0 == %19 + n("L0") + 1)
  if %23
  loop L0 @6 | v0 from ""
  then v0 := %24
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Err.0 == %19 + n("L0") + 1)
  if not %23
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Err.0 == %19 + n("L0") + 1)
  if true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @6 | v0 from ""
  then v0 := %25
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Err.0 == %19 + n("L0") + 1)
  if not true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Err.0 == %19 + n("L0") + 1)
  if %26
  loop L0 @6 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%19 + n("L0"))]>)
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Err.0 == %19 + n("L0") + 1)
  if not %26
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if (%3@Ok.0 == %19)
  if (len((*$0).starts) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if (%3@Ok.0 == %19)
  if not (len((*$0).starts) < %19 + 1)
  if (len((*$0).chunks) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not (%3@Ok.0 == %19)
  if not (len((*$0).starts) == %3@Ok.0 + 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %19 + n("L0") + 1)
  loop L0 @7 | v0 from ""
  panics
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Ok.0 == %19 + n("L0"))
  if %21
  loop L0 @7 | v0 from ""
  then v0 := %22
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Ok.0 == %19 + n("L0"))
  if not %21
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Ok.0 == %19 + n("L0"))
  if %23
  loop L0 @7 | v0 from ""
  then v0 := %24
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Ok.0 == %19 + n("L0"))
  if not %23
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Ok.0 == %19 + n("L0"))
  if true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @7 | v0 from ""
  then v0 := %25
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Ok.0 == %19 + n("L0"))
  if not true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Ok.0 == %19 + n("L0"))
  if %26
  loop L0 @7 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%19 + n("L0"))]>)
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Ok.0 == %19 + n("L0"))
  if not %26
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if ((*$0).len < $1.start + 1)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if not ($1.start < $1.end)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not (%3@Ok.0 == %19)
  if not (len((*$0).chunks) == %3@Ok.0 + 1)
  if (len((*$0).chunks) < %19 + n("L0") + 1)
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not (%3@Ok.0 == %19)
  if (%3@Ok.0 + 1 == %19 + n("L0"))
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if (%3@Ok.0 == %19)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if not %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if (%3@Ok.0 == %19)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %28
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == %19 + 1)
  if not (len((*$0).chunks) == %3@Err.0)
  if (len((*$0).chunks) < %19 + n("L0") + 1)
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == %19 + 1)
  if (%3@Err.0 == %19 + n("L0"))
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == %19 + 1)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if not %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == %19 + 1)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %28
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%19 == 0)
  if not (len((*$0).chunks) == 1)
  if (len((*$0).chunks) < %19 + n("L0") + 1)
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%19 == 0)
  if (%19 + n("L0") == 1)
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%19 == 0)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if not %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%19 == 0)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %28
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if not (%2 == %3@Ok.0 + 1)
  if not (len((*$0).chunks) == %3@Ok.0 + 1)
  if (len((*$0).chunks) < %2 + n("L0"))
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if not (%2 == %3@Ok.0 + 1)
  if (%2 + n("L0") == %3@Ok.0 + 2)
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if (%2 == %3@Ok.0 + 1)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if not %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if (%2 == %3@Ok.0 + 1)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %30
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%2 == %3@Err.0)
  if not (len((*$0).chunks) == %3@Err.0)
  if (len((*$0).chunks) < %2 + n("L0"))
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%2 == %3@Err.0)
  if (%2 + n("L0") == %3@Err.0 + 1)
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%2 == %3@Err.0)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if not %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%2 == %3@Err.0)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %30
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%2 == 1)
  if not (len((*$0).chunks) == 1)
  if (len((*$0).chunks) < %2 + n("L0"))
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%2 == 1)
  if (%2 + n("L0") == 2)
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%2 == 1)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if not %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%2 == 1)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %30
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if not (len((*$0).chunks) == %3@Ok.0 + 1)
  if (len((*$0).chunks) < n("L0") + 1)
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if (%3@Ok.0 + 1 == n("L0"))
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if not %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %32
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if not (len((*$0).chunks) == %3@Err.0)
  if (len((*$0).chunks) < n("L0") + 1)
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if (%3@Err.0 == n("L0"))
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if not %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %32
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if not %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %32

fn <oak_core::source::rope::RopeBuffer as oak_core::source::Source>::length
case
  ret (*$0).len

fn <oak_core::source::rope::RopeBuffer as oak_core::source::Source>::source_id
case
  ret (*$0).source_id

fn <oak_core::source::rope::RopeSource as oak_core::source::Source>::chunk_at
  holds (len((*(*$0).chunks)) == len((*(*$0).starts)))
  let %1 = (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 < len((*(*$0).starts)) + 1)
  let %2 = (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 < len((*(*$0).chunks)) + 1)
  let %3 = (len((*(*$0).starts)) < call "[T]::binary_search"((*$0).starts, rv($1))@Ok.0 + 1)
  let %4 = (len((*(*$0).chunks)) < call "[T]::binary_search"((*$0).starts, rv($1))@Ok.0 + 1)
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if (len((*(*$0).starts)) < 1)
  panics
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if (len((*(*$0).chunks)) < 1)
  panics
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  do call "[T]::binary_search"((*$0).starts, rv($1))
  ret new "oak_core::source::TextChunk"{start: (*(*$0).starts)[0], text: (*(*$0).chunks)[0]}
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if not %1
  panics
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if %1
  if not %2
  panics
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if %1
  if %2
  do call "[T]::binary_search"((*$0).starts, rv($1))
  ret new "oak_core::source::TextChunk"{start: (*(*$0).starts)[(call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 - 1)], text: (*(*$0).chunks)[(call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 - 1)]}
case
  if ($1 < (*$0).len)
  if not (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if %3
  panics
case
  if ($1 < (*$0).len)
  if not (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not %3
  if %4
  panics
case
  if ($1 < (*$0).len)
  if not (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not %3
  if not %4
  do call "[T]::binary_search"((*$0).starts, rv($1))
  ret new "oak_core::source::TextChunk"{start: (*(*$0).starts)[call "[T]::binary_search"((*$0).starts, rv($1))@Ok.0], text: (*(*$0).chunks)[call "[T]::binary_search"((*$0).starts, rv($1))@Ok.0]}
case
  if not ($1 < (*$0).len)
  ret new "oak_core::source::TextChunk"{start: (*$0).len, text: ""}

fn <oak_core::source::rope::RopeSource as oak_core::source::Source>::get_text_in
  holds (len((*(*$0).chunks)) == len((*(*$0).starts)))
  let %1 = (call "[T]::binary_search"((*$0).starts, rv($1.start)) is Err)
  let %2 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 == 0)
  let %3 = call "[T]::binary_search"((*$0).starts, rv(min((*$0).len, $1.end)))
  let %4 = true(validrange((*(*(*$0).chunks)[n("L0")]), max0(($1.start - (*(*$0).starts)[n("L0")])), max0((-(*(*$0).starts)[n("L0")] + min((*$0).len, $1.end)))))
  let %5 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[n("L0")]), max0(($1.start - (*(*$0).starts)[n("L0")])), max0((-(*(*$0).starts)[n("L0")] + min((*$0).len, $1.end))))>)
  let %6 = true(validrange((*(*(*$0).chunks)[n("L0")]), max0(($1.start - (*(*$0).starts)[n("L0")])), len((*(*(*$0).chunks)[n("L0")]))))
  let %7 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[n("L0")]), max0(($1.start - (*(*$0).starts)[n("L0")])), len((*(*(*$0).chunks)[n("L0")])))>)
  let %8 = true(validrange((*(*(*$0).chunks)[n("L0")]), 0, max0((-(*(*$0).starts)[n("L0")] + min((*$0).len, $1.end)))))
  let %9 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[n("L0")]), 0, max0((-(*(*$0).starts)[n("L0")] + min((*$0).len, $1.end))))>)
  let %10 = true(validrange((*(*(*$0).chunks)[n("L0")]), 0, len((*(*(*$0).chunks)[n("L0")]))))
  let %11 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 - 1)
  let %12 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 == 1)
  let %13 = (len((*(*$0).starts)) < call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0)
  let %14 = (len((*(*$0).chunks)) < call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0)
  let %15 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") < len((*(*$0).starts)) + 1)
  let %16 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == 2)
  let %17 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") < len((*(*$0).chunks)) + 1)
  let %18 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") - 1)
  let %19 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == 1)
  let %20 = true(validrange((*(*(*$0).chunks)[%18]), max0(($1.start - (*(*$0).starts)[%18])), max0((-(*(*$0).starts)[%18] + min((*$0).len, $1.end)))))
  let %21 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%18]), max0(($1.start - (*(*$0).starts)[%18])), max0((-(*(*$0).starts)[%18] + min((*$0).len, $1.end))))>)
  let %22 = true(validrange((*(*(*$0).chunks)[%18]), max0(($1.start - (*(*$0).starts)[%18])), len((*(*(*$0).chunks)[%18]))))
  let %23 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%18]), max0(($1.start - (*(*$0).starts)[%18])), len((*(*(*$0).chunks)[%18])))>)
  let %24 = true(validrange((*(*(*$0).chunks)[%18]), 0, max0((-(*(*$0).starts)[%18] + min((*$0).len, $1.end)))))
  let %25 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%18]), 0, max0((-(*(*$0).starts)[%18] + min((*$0).len, $1.end))))>)
  let %26 = true(validrange((*(*(*$0).chunks)[%18]), 0, len((*(*(*$0).chunks)[%18]))))
  let %27 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 == %3@Err.0)
  let %28 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == %3@Err.0 + 1)
  let %29 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == %3@Err.0)
  let %30 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 == %3@Ok.0 + 1)
  let %31 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == %3@Ok.0 + 2)
  let %32 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == %3@Ok.0 + 1)
  let %33 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 == 0)
  let %34 = (len((*(*$0).starts)) < call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + 1)
  let %35 = (len((*(*$0).chunks)) < call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + 1)
  let %36 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") < len((*(*$0).starts)))
  let %37 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == 1)
  let %38 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") < len((*(*$0).chunks)))
  let %39 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0"))
  let %40 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == 0)
  let %41 = true(validrange((*(*(*$0).chunks)[%39]), max0(($1.start - (*(*$0).starts)[%39])), max0((-(*(*$0).starts)[%39] + min((*$0).len, $1.end)))))
  let %42 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%39]), max0(($1.start - (*(*$0).starts)[%39])), max0((-(*(*$0).starts)[%39] + min((*$0).len, $1.end))))>)
  let %43 = true(validrange((*(*(*$0).chunks)[%39]), max0(($1.start - (*(*$0).starts)[%39])), len((*(*(*$0).chunks)[%39]))))
  let %44 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%39]), max0(($1.start - (*(*$0).starts)[%39])), len((*(*(*$0).chunks)[%39])))>)
  let %45 = true(validrange((*(*(*$0).chunks)[%39]), 0, max0((-(*(*$0).starts)[%39] + min((*$0).len, $1.end)))))
  let %46 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%39]), 0, max0((-(*(*$0).starts)[%39] + min((*$0).len, $1.end))))>)
  let %47 = true(validrange((*(*(*$0).chunks)[%39]), 0, len((*(*(*$0).chunks)[%39]))))
  let %48 = (%3@Err.0 == call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + 1)
  let %49 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == %3@Err.0)
  let %50 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") + 1 == %3@Err.0)
  let %51 = (%3@Ok.0 == call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0)
  let %52 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == %3@Ok.0 + 1)
  let %53 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == %3@Ok.0)
  let %54 = (*(*(*$0).chunks)[call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0])
  let %55 = (*(*$0).starts)[call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0]
  let %56 = true(validrange(%54, ($1.start - %55), (-%55 + min((*$0).len, $1.end))))
  let %57 = new "alloc::borrow::Cow" Borrowed{0: rv(slice(%54, ($1.start - %55), (-%55 + min((*$0).len, $1.end))))}
  let %58 = true(validrange((*(*(*$0).chunks)[%11]), ($1.start - (*(*$0).starts)[%11]), (-(*(*$0).starts)[%11] + min((*$0).len, $1.end))))
  let %59 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*(*$0).chunks)[%11]), ($1.start - (*(*$0).starts)[%11]), (-(*(*$0).starts)[%11] + min((*$0).len, $1.end))))}
  let %60 = true(validrange((*(*(*$0).chunks)[0]), ($1.start - (*(*$0).starts)[0]), (-(*(*$0).starts)[0] + min((*$0).len, $1.end))))
  let %61 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*(*$0).chunks)[0]), ($1.start - (*(*$0).starts)[0]), (-(*(*$0).starts)[0] + min((*$0).len, $1.end))))}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (len((*(*$0).starts)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if (len((*(*$0).chunks)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if (len((*(*$0).starts)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*(*$0).starts)) < 1)
  if (len((*(*$0).chunks)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if not (len((*(*$0).starts)) == %3@Err.0)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not (n("L0") < len((*(*$0).starts)))
  loop L0 @0 | v0 from ""
  panics
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if (n("L0") + 1 == %3@Err.0)
  if %4
  loop L0 @0 | v0 from ""
  then v0 := %5
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if (n("L0") + 1 == %3@Err.0)
  if not %4
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if not (n("L0") + 1 == %3@Err.0)
  if %6
  loop L0 @0 | v0 from ""
  then v0 := %7
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if not (n("L0") + 1 == %3@Err.0)
  if not %6
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if (n("L0") + 1 == %3@Err.0)
  if %8
  loop L0 @0 | v0 from ""
  then v0 := %9
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if (n("L0") + 1 == %3@Err.0)
  if not %8
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if not (n("L0") + 1 == %3@Err.0)
  if %10
  loop L0 @0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[n("L0")]>)
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if not (n("L0") + 1 == %3@Err.0)
  if not %10
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if (len((*(*$0).starts)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if (len((*(*$0).chunks)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if not (len((*(*$0).starts)) == %3@Ok.0 + 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not (n("L0") < len((*(*$0).starts)))
  loop L0 @1 | v0 from ""
  panics
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if (n("L0") == %3@Ok.0)
  if %4
  loop L0 @1 | v0 from ""
  then v0 := %5
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if (n("L0") == %3@Ok.0)
  if not %4
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if not (n("L0") == %3@Ok.0)
  if %6
  loop L0 @1 | v0 from ""
  then v0 := %7
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if not (n("L0") == %3@Ok.0)
  if not %6
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if (n("L0") == %3@Ok.0)
  if %8
  loop L0 @1 | v0 from ""
  then v0 := %9
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if (n("L0") == %3@Ok.0)
  if not %8
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if not (n("L0") == %3@Ok.0)
  if %10
  loop L0 @1 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[n("L0")]>)
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if not (n("L0") == %3@Ok.0)
  if not %10
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %12
  if %13
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %12
  if not %13
  if %14
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %12
  if not (len((*(*$0).starts)) == 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %15
  loop L0 @2 | v0 from ""
  panics
pass L0
  if not %16
  if %17
  if %15
  if (n("L0") == 0)
  if %19
  if %20
  loop L0 @2 | v0 from ""
  then v0 := %21
pass L0
  if not %16
  if %17
  if %15
  if (n("L0") == 0)
  if %19
  if not %20
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %16
  if %17
  if %15
  if (n("L0") == 0)
  if not %19
  if %22
  loop L0 @2 | v0 from ""
  then v0 := %23
pass L0
  if not %16
  if %17
  if %15
  if (n("L0") == 0)
  if not %19
  if not %22
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %16
  if %17
  if %15
  if not (n("L0") == 0)
  if %19
  if %24
  loop L0 @2 | v0 from ""
  then v0 := %25
pass L0
  if not %16
  if %17
  if %15
  if not (n("L0") == 0)
  if %19
  if not %24
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %16
  if %17
  if %15
  if not (n("L0") == 0)
  if not %19
  if %26
  loop L0 @2 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%18]>)
pass L0
  if not %16
  if %17
  if %15
  if not (n("L0") == 0)
  if not %19
  if not %26
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %27
  if %13
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %27
  if not %13
  if %14
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %27
  if not (len((*(*$0).starts)) == %3@Err.0)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %15
  loop L0 @3 | v0 from ""
  panics
pass L0
  if not %28
  if %17
  if %15
  if (n("L0") == 0)
  if %29
  if %20
  loop L0 @3 | v0 from ""
  then v0 := %21
pass L0
  if not %28
  if %17
  if %15
  if (n("L0") == 0)
  if %29
  if not %20
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %28
  if %17
  if %15
  if (n("L0") == 0)
  if not %29
  if %22
  loop L0 @3 | v0 from ""
  then v0 := %23
pass L0
  if not %28
  if %17
  if %15
  if (n("L0") == 0)
  if not %29
  if not %22
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %28
  if %17
  if %15
  if not (n("L0") == 0)
  if %29
  if %24
  loop L0 @3 | v0 from ""
  then v0 := %25
pass L0
  if not %28
  if %17
  if %15
  if not (n("L0") == 0)
  if %29
  if not %24
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %28
  if %17
  if %15
  if not (n("L0") == 0)
  if not %29
  if %26
  loop L0 @3 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%18]>)
pass L0
  if not %28
  if %17
  if %15
  if not (n("L0") == 0)
  if not %29
  if not %26
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if %30
  if %13
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if %30
  if not %13
  if %14
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if not %30
  if not (len((*(*$0).starts)) == %3@Ok.0 + 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %15
  loop L0 @4 | v0 from ""
  panics
pass L0
  if not %31
  if %17
  if %15
  if (n("L0") == 0)
  if %32
  if %20
  loop L0 @4 | v0 from ""
  then v0 := %21
pass L0
  if not %31
  if %17
  if %15
  if (n("L0") == 0)
  if %32
  if not %20
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %31
  if %17
  if %15
  if (n("L0") == 0)
  if not %32
  if %22
  loop L0 @4 | v0 from ""
  then v0 := %23
pass L0
  if not %31
  if %17
  if %15
  if (n("L0") == 0)
  if not %32
  if not %22
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %31
  if %17
  if %15
  if not (n("L0") == 0)
  if %32
  if %24
  loop L0 @4 | v0 from ""
  then v0 := %25
pass L0
  if not %31
  if %17
  if %15
  if not (n("L0") == 0)
  if %32
  if not %24
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %31
  if %17
  if %15
  if not (n("L0") == 0)
  if not %32
  if %26
  loop L0 @4 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%18]>)
pass L0
  if not %31
  if %17
  if %15
  if not (n("L0") == 0)
  if not %32
  if not %26
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %33
  if %34
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %33
  if not %34
  if %35
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %33
  if not (len((*(*$0).starts)) == 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %36
  loop L0 @5 | v0 from ""
  panics
pass L0
  if not %37
  if %38
  if %36
  if (n("L0") == 0)
  if %40
  if %41
  loop L0 @5 | v0 from ""
  then v0 := %42
pass L0
  if not %37
  if %38
  if %36
  if (n("L0") == 0)
  if %40
  if not %41
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %37
  if %38
  if %36
  if (n("L0") == 0)
  if not %40
  if %43
  loop L0 @5 | v0 from ""
  then v0 := %44
pass L0
  if not %37
  if %38
  if %36
  if (n("L0") == 0)
  if not %40
  if not %43
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %37
  if %38
  if %36
  if not (n("L0") == 0)
  if %40
  if %45
  loop L0 @5 | v0 from ""
  then v0 := %46
pass L0
  if not %37
  if %38
  if %36
  if not (n("L0") == 0)
  if %40
  if not %45
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %37
  if %38
  if %36
  if not (n("L0") == 0)
  if not %40
  if %47
  loop L0 @5 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%39]>)
pass L0
  if not %37
  if %38
  if %36
  if not (n("L0") == 0)
  if not %40
  if not %47
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %48
  if %34
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %48
  if not %34
  if %35
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %48
  if not (len((*(*$0).starts)) == %3@Err.0)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %36
  loop L0 @6 | v0 from ""
  panics
pass L0
  if not %49
  if %38
  if %36
  if (n("L0") == 0)
  if %50
  if %41
  loop L0 @6 | v0 from ""
  then v0 := %42
pass L0
  if not %49
  if %38
  if %36
  if (n("L0") == 0)
  if %50
  if not %41
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %49
  if %38
  if %36
  if (n("L0") == 0)
  if not %50
  if %43
  loop L0 @6 | v0 from ""
  then v0 := %44
pass L0
  if not %49
  if %38
  if %36
  if (n("L0") == 0)
  if not %50
  if not %43
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %49
  if %38
  if %36
  if not (n("L0") == 0)
  if %50
  if %45
  loop L0 @6 | v0 from ""
  then v0 := %46
pass L0
  if not %49
  if %38
  if %36
  if not (n("L0") == 0)
  if %50
  if not %45
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %49
  if %38
  if %36
  if not (n("L0") == 0)
  if not %50
  if %47
  loop L0 @6 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%39]>)
pass L0
  if not %49
  if %38
  if %36
  if not (n("L0") == 0)
  if not %50
  if not %47
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if %51
  if %34
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if %51
  if not %34
  if %35
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not %51
  if not (len((*(*$0).starts)) == %3@Ok.0 + 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %36
  loop L0 @7 | v0 from ""
  panics
pass L0
  if not %52
  if %38
  if %36
  if (n("L0") == 0)
  if %53
  if %41
  loop L0 @7 | v0 from ""
  then v0 := %42
pass L0
  if not %52
  if %38
  if %36
  if (n("L0") == 0)
  if %53
  if not %41
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %52
  if %38
  if %36
  if (n("L0") == 0)
  if not %53
  if %43
  loop L0 @7 | v0 from ""
  then v0 := %44
pass L0
  if not %52
  if %38
  if %36
  if (n("L0") == 0)
  if not %53
  if not %43
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %52
  if %38
  if %36
  if not (n("L0") == 0)
  if %53
  if %45
  loop L0 @7 | v0 from ""
  then v0 := %46
pass L0
  if not %52
  if %38
  if %36
  if not (n("L0") == 0)
  if %53
  if not %45
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %52
  if %38
  if %36
  if not (n("L0") == 0)
  if not %53
  if %47
  loop L0 @7 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%39]>)
pass L0
  if not %52
  if %38
  if %36
  if not (n("L0") == 0)
  if not %53
  if not %47
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if ((*$0).len < $1.start + 1)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if not ($1.start < $1.end)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not %51
  if not (len((*(*$0).chunks)) == %3@Ok.0 + 1)
  if not %38
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not %51
  if %52
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if %51
  if not %34
  if not %35
  if not %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if %51
  if not %34
  if not %35
  if %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %57
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %48
  if not (len((*(*$0).chunks)) == %3@Err.0)
  if not %38
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %48
  if %49
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %48
  if not %34
  if not %35
  if not %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %48
  if not %34
  if not %35
  if %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %57
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %33
  if not (len((*(*$0).chunks)) == 1)
  if not %38
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %33
  if %37
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %33
  if not %34
  if not %35
  if not %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %33
  if not %34
  if not %35
  if %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %57
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if not %30
  if not (len((*(*$0).chunks)) == %3@Ok.0 + 1)
  if not %17
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if not %30
  if %31
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if %30
  if not %13
  if not %14
  if not %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if %30
  if not %13
  if not %14
  if %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %59
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %27
  if not (len((*(*$0).chunks)) == %3@Err.0)
  if not %17
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %27
  if %28
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %27
  if not %13
  if not %14
  if not %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %27
  if not %13
  if not %14
  if %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %59
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %12
  if not (len((*(*$0).chunks)) == 1)
  if not %17
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %12
  if %16
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %12
  if not %13
  if not %14
  if not %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %12
  if not %13
  if not %14
  if %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %59
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if not (len((*(*$0).chunks)) == %3@Ok.0 + 1)
  if not (n("L0") < len((*(*$0).chunks)))
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if (n("L0") == %3@Ok.0 + 1)
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if not %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %61
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if not (len((*(*$0).chunks)) == %3@Err.0)
  if not (n("L0") < len((*(*$0).chunks)))
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if (n("L0") == %3@Err.0)
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if not %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %61
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if not %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %61

fn <oak_core::source::rope::RopeSource as oak_core::source::Source>::length
case
  ret (*$0).len

fn <oak_core::source::rope::RopeSource as oak_core::source::Source>::source_id
case
  ret (*$0).source_id

fn <oak_core::source::streaming::ChunkedBuffer as oak_core::source::Source>::chunk_at
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = (call "[T]::binary_search"(rv((*$0).starts), rv($1))@Err.0 == 0)
  let %2 = (call "[T]::binary_search"(rv((*$0).starts), rv($1))@Err.0 - 1)
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"(rv((*$0).starts), rv($1)) is Err)
  if %1
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  do call "[T]::binary_search"(rv((*$0).starts), rv($1))
  ret new "oak_core::source::TextChunk"{start: (*$0).starts[0], text: (*$0).chunks[0]}
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"(rv((*$0).starts), rv($1)) is Err)
  if not %1
  if not (len((*$0).starts) < call "[T]::binary_search"(rv((*$0).starts), rv($1))@Err.0)
  if not (len((*$0).chunks) < call "[T]::binary_search"(rv((*$0).starts), rv($1))@Err.0)
  do call "[T]::binary_search"(rv((*$0).starts), rv($1))
  ret new "oak_core::source::TextChunk"{start: (*$0).starts[%2], text: (*$0).chunks[%2]}
case
  if ($1 < (*$0).len)
  if not (call "[T]::binary_search"(rv((*$0).starts), rv($1)) is Err)
  if not (len((*$0).starts) < call "[T]::binary_search"(rv((*$0).starts), rv($1))@Ok.0 + 1)
  if not (len((*$0).chunks) < call "[T]::binary_search"(rv((*$0).starts), rv($1))@Ok.0 + 1)
  do call "[T]::binary_search"(rv((*$0).starts), rv($1))
  ret new "oak_core::source::TextChunk"{start: (*$0).starts[call "[T]::binary_search"(rv((*$0).starts), rv($1))@Ok.0], text: (*$0).chunks[call "[T]::binary_search"(rv((*$0).starts), rv($1))@Ok.0]}
case
  if not ($1 < (*$0).len)
  ret new "oak_core::source::TextChunk"{start: (*$0).len, text: ""}

fn <oak_core::source::streaming::ChunkedBuffer as oak_core::source::Source>::get_text_in
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = (call "[T]::binary_search"(rv((*$0).starts), rv($1.start)) is Err)
  let %2 = call "[T]::binary_search"(rv((*$0).starts), rv($1.start))@Err.0
  let %3 = call "[T]::binary_search"(rv((*$0).starts), rv(min((*$0).len, $1.end)))
  let %4 = true(validrange((*(*$0).chunks[n("L0")]), max0(($1.start - (*$0).starts[n("L0")])), max0((-(*$0).starts[n("L0")] + min((*$0).len, $1.end)))))
  let %5 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[n("L0")]), max0(($1.start - (*$0).starts[n("L0")])), max0((-(*$0).starts[n("L0")] + min((*$0).len, $1.end))))>)
  let %6 = true(validrange((*(*$0).chunks[n("L0")]), max0(($1.start - (*$0).starts[n("L0")])), len((*(*$0).chunks[n("L0")]))))
  let %7 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[n("L0")]), max0(($1.start - (*$0).starts[n("L0")])), len((*(*$0).chunks[n("L0")])))>)
  let %8 = true(validrange((*(*$0).chunks[n("L0")]), 0, max0((-(*$0).starts[n("L0")] + min((*$0).len, $1.end)))))
  let %9 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[n("L0")]), 0, max0((-(*$0).starts[n("L0")] + min((*$0).len, $1.end))))>)
  let %10 = true(validrange((*(*$0).chunks[n("L0")]), 0, len((*(*$0).chunks[n("L0")]))))
  let %11 = max0((-(*$0).starts[(%2 + n("L0") - 1)] + min((*$0).len, $1.end)))
  let %12 = true(validrange((*(*$0).chunks[(%2 + n("L0") - 1)]), max0(($1.start - (*$0).starts[(%2 + n("L0") - 1)])), %11))
  let %13 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%2 + n("L0") - 1)]), max0(($1.start - (*$0).starts[(%2 + n("L0") - 1)])), %11)>)
  let %14 = true(validrange((*(*$0).chunks[(%2 + n("L0") - 1)]), max0(($1.start - (*$0).starts[(%2 + n("L0") - 1)])), len((*(*$0).chunks[(%2 + n("L0") - 1)]))))
  let %15 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%2 + n("L0") - 1)]), max0(($1.start - (*$0).starts[(%2 + n("L0") - 1)])), len((*(*$0).chunks[(%2 + n("L0") - 1)])))>)
  let %16 = true(validrange((*(*$0).chunks[(%2 + n("L0") - 1)]), 0, %11))
  let %17 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%2 + n("L0") - 1)]), 0, %11)>)
  let %18 = true(validrange((*(*$0).chunks[(%2 + n("L0") - 1)]), 0, len((*(*$0).chunks[(%2 + n("L0") - 1)]))))
  let %19 = call "[T]::binary_search"(rv((*$0).starts), rv($1.start))@Ok.0
  let %20 = max0((-(*$0).starts[(%19 + n("L0"))] + min((*$0).len, $1.end)))
  let %21 = true(validrange((*(*$0).chunks[(%19 + n("L0"))]), max0(($1.start - (*$0).starts[(%19 + n("L0"))])), %20))
  let %22 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%19 + n("L0"))]), max0(($1.start - (*$0).starts[(%19 + n("L0"))])), %20)>)
  let %23 = true(validrange((*(*$0).chunks[(%19 + n("L0"))]), max0(($1.start - (*$0).starts[(%19 + n("L0"))])), len((*(*$0).chunks[(%19 + n("L0"))]))))
  let %24 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%19 + n("L0"))]), max0(($1.start - (*$0).starts[(%19 + n("L0"))])), len((*(*$0).chunks[(%19 + n("L0"))])))>)
  let %25 = cat(<lv("L0", "v0"), slice((*(*$0).chunks[(%19 + n("L0"))]), 0, %20)>)
  let %26 = true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, len((*(*$0).chunks[(%19 + n("L0"))]))))
  let %27 = true(validrange((*(*$0).chunks[%19]), ($1.start - (*$0).starts[%19]), (-(*$0).starts[%19] + min((*$0).len, $1.end))))
  let %28 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0).chunks[%19]), ($1.start - (*$0).starts[%19]), (-(*$0).starts[%19] + min((*$0).len, $1.end))))}
  let %29 = true(validrange((*(*$0).chunks[(%2 - 1)]), ($1.start - (*$0).starts[(%2 - 1)]), (-(*$0).starts[(%2 - 1)] + min((*$0).len, $1.end))))
  let %30 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0).chunks[(%2 - 1)]), ($1.start - (*$0).starts[(%2 - 1)]), (-(*$0).starts[(%2 - 1)] + min((*$0).len, $1.end))))}
  let %31 = true(validrange((*(*$0).chunks[0]), ($1.start - (*$0).starts[0]), (-(*$0).starts[0] + min((*$0).len, $1.end))))
  let %32 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0).chunks[0]), ($1.start - (*$0).starts[0]), (-(*$0).starts[0] + min((*$0).len, $1.end))))}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (len((*$0).starts) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*$0).starts) < 1)
  if (len((*$0).chunks) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if (len((*$0).starts) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*$0).starts) < 1)
  if (len((*$0).chunks) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if not (len((*$0).starts) == %3@Err.0)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < n("L0") + 1)
  loop L0 @0 | v0 from ""
  panics
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Err.0 == n("L0") + 1)
  if %4
  loop L0 @0 | v0 from ""
  then v0 := %5
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Err.0 == n("L0") + 1)
  if not %4
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Err.0 == n("L0") + 1)
  if %6
  loop L0 @0 | v0 from ""
  then v0 := %7
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Err.0 == n("L0") + 1)
  if not %6
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Err.0 == n("L0") + 1)
  if %8
  loop L0 @0 | v0 from ""
  then v0 := %9
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Err.0 == n("L0") + 1)
  if not %8
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Err.0 == n("L0") + 1)
  if %10
  loop L0 @0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[n("L0")]>)
pass L0
  if not (%3@Err.0 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Err.0 == n("L0") + 1)
  if not %10
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if (len((*$0).starts) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*$0).starts) < 1)
  if (len((*$0).chunks) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if not (len((*$0).starts) == %3@Ok.0 + 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < n("L0") + 1)
  loop L0 @1 | v0 from ""
  panics
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Ok.0 == n("L0"))
  if %4
  loop L0 @1 | v0 from ""
  then v0 := %5
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Ok.0 == n("L0"))
  if not %4
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Ok.0 == n("L0"))
  if %6
  loop L0 @1 | v0 from ""
  then v0 := %7
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Ok.0 == n("L0"))
  if not %6
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Ok.0 == n("L0"))
  if %8
  loop L0 @1 | v0 from ""
  then v0 := %9
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Ok.0 == n("L0"))
  if not %8
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Ok.0 == n("L0"))
  if %10
  loop L0 @1 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[n("L0")]>)
pass L0
  if not (%3@Ok.0 + 1 == n("L0"))
  if not (len((*$0).chunks) < n("L0") + 1)
  if not (len((*$0).starts) < n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Ok.0 == n("L0"))
  if not %10
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%2 == 1)
  if (len((*$0).starts) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%2 == 1)
  if not (len((*$0).starts) < %2)
  if (len((*$0).chunks) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%2 == 1)
  if not (len((*$0).starts) == 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %2 + n("L0"))
  loop L0 @2 | v0 from ""
  panics
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == 1)
  if %12
  loop L0 @2 | v0 from ""
  then v0 := %13
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == 1)
  if not %12
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == 1)
  if %14
  loop L0 @2 | v0 from ""
  then v0 := %15
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == 1)
  if not %14
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == 1)
  if %16
  loop L0 @2 | v0 from ""
  then v0 := %17
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == 1)
  if not %16
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == 1)
  if %18
  loop L0 @2 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%2 + n("L0") - 1)]>)
pass L0
  if not (%2 + n("L0") == 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == 1)
  if not %18
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%2 == %3@Err.0)
  if (len((*$0).starts) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%2 == %3@Err.0)
  if not (len((*$0).starts) < %2)
  if (len((*$0).chunks) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%2 == %3@Err.0)
  if not (len((*$0).starts) == %3@Err.0)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %2 + n("L0"))
  loop L0 @3 | v0 from ""
  panics
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == %3@Err.0)
  if %12
  loop L0 @3 | v0 from ""
  then v0 := %13
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == %3@Err.0)
  if not %12
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == %3@Err.0)
  if %14
  loop L0 @3 | v0 from ""
  then v0 := %15
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == %3@Err.0)
  if not %14
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == %3@Err.0)
  if %16
  loop L0 @3 | v0 from ""
  then v0 := %17
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == %3@Err.0)
  if not %16
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == %3@Err.0)
  if %18
  loop L0 @3 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%2 + n("L0") - 1)]>)
pass L0
  if not (%2 + n("L0") == %3@Err.0 + 1)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == %3@Err.0)
  if not %18
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if (%2 == %3@Ok.0 + 1)
  if (len((*$0).starts) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if (%2 == %3@Ok.0 + 1)
  if not (len((*$0).starts) < %2)
  if (len((*$0).chunks) < %2)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if not (%2 == %3@Ok.0 + 1)
  if not (len((*$0).starts) == %3@Ok.0 + 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %2 + n("L0"))
  loop L0 @4 | v0 from ""
  panics
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == %3@Ok.0 + 1)
  if %12
  loop L0 @4 | v0 from ""
  then v0 := %13
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if (%2 + n("L0") == %3@Ok.0 + 1)
  if not %12
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == %3@Ok.0 + 1)
  if %14
  loop L0 @4 | v0 from ""
  then v0 := %15
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if (n("L0") == 0)
  if not (%2 + n("L0") == %3@Ok.0 + 1)
  if not %14
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == %3@Ok.0 + 1)
  if %16
  loop L0 @4 | v0 from ""
  then v0 := %17
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if (%2 + n("L0") == %3@Ok.0 + 1)
  if not %16
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == %3@Ok.0 + 1)
  if %18
  loop L0 @4 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%2 + n("L0") - 1)]>)
pass L0
  if not (%2 + n("L0") == %3@Ok.0 + 2)
  if not (len((*$0).chunks) < %2 + n("L0"))
  if not (len((*$0).starts) < %2 + n("L0"))
  if not (n("L0") == 0)
  if not (%2 + n("L0") == %3@Ok.0 + 1)
  if not %18
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%19 == 0)
  if (len((*$0).starts) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%19 == 0)
  if not (len((*$0).starts) < %19 + 1)
  if (len((*$0).chunks) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%19 == 0)
  if not (len((*$0).starts) == 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %19 + n("L0") + 1)
  loop L0 @5 | v0 from ""
  panics
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%19 + n("L0") == 0)
  if %21
  loop L0 @5 | v0 from ""
  then v0 := %22
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%19 + n("L0") == 0)
  if not %21
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%19 + n("L0") == 0)
  if %23
  loop L0 @5 | v0 from ""
  then v0 := %24
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%19 + n("L0") == 0)
  if not %23
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%19 + n("L0") == 0)
  if true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @5 | v0 from ""
  then v0 := %25
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%19 + n("L0") == 0)
  if not true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%19 + n("L0") == 0)
  if %26
  loop L0 @5 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%19 + n("L0"))]>)
pass L0
  if not (%19 + n("L0") == 1)
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%19 + n("L0") == 0)
  if not %26
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == %19 + 1)
  if (len((*$0).starts) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == %19 + 1)
  if not (len((*$0).starts) < %19 + 1)
  if (len((*$0).chunks) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == %19 + 1)
  if not (len((*$0).starts) == %3@Err.0)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %19 + n("L0") + 1)
  loop L0 @6 | v0 from ""
  panics
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Err.0 == %19 + n("L0") + 1)
  if %21
  loop L0 @6 | v0 from ""
  then v0 := %22
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Err.0 == %19 + n("L0") + 1)
  if not %21
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Err.0 == %19 + n("L0") + 1)
  if %23
  loop L0 @6 | v0 from ""
  then v0 := %24
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Err.0 == %19 + n("L0") + 1)
  if not %23
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Err.0 == %19 + n("L0") + 1)
  if true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @6 | v0 from ""
  then v0 := %25
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Err.0 == %19 + n("L0") + 1)
  if not true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Err.0 == %19 + n("L0") + 1)
  if %26
  loop L0 @6 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%19 + n("L0"))]>)
pass L0
  if not (%3@Err.0 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Err.0 == %19 + n("L0") + 1)
  if not %26
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if (%3@Ok.0 == %19)
  if (len((*$0).starts) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if (%3@Ok.0 == %19)
  if not (len((*$0).starts) < %19 + 1)
  if (len((*$0).chunks) < %19 + 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not (%3@Ok.0 == %19)
  if not (len((*$0).starts) == %3@Ok.0 + 1)
  if (len((*$0).starts) < len((*$0).chunks))
  if (len((*$0).starts) < %19 + n("L0") + 1)
  loop L0 @7 | v0 from ""
  panics
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Ok.0 == %19 + n("L0"))
  if %21
  loop L0 @7 | v0 from ""
  then v0 := %22
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if (%3@Ok.0 == %19 + n("L0"))
  if not %21
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Ok.0 == %19 + n("L0"))
  if %23
  loop L0 @7 | v0 from ""
  then v0 := %24
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if (n("L0") == 0)
  if not (%3@Ok.0 == %19 + n("L0"))
  if not %23
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Ok.0 == %19 + n("L0"))
  if true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @7 | v0 from ""
  then v0 := %25
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if (%3@Ok.0 == %19 + n("L0"))
  if not true(validrange((*(*$0).chunks[(%19 + n("L0"))]), 0, %20))
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Ok.0 == %19 + n("L0"))
  if %26
  loop L0 @7 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0).chunks[(%19 + n("L0"))]>)
pass L0
  if not (%3@Ok.0 + 1 == %19 + n("L0"))
  if not (len((*$0).chunks) < %19 + n("L0") + 1)
  if not (len((*$0).starts) < %19 + n("L0") + 1)
  if not (n("L0") == 0)
  if not (%3@Ok.0 == %19 + n("L0"))
  if not %26
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if ((*$0).len < $1.start + 1)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if not ($1.start < $1.end)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not (%3@Ok.0 == %19)
  if not (len((*$0).chunks) == %3@Ok.0 + 1)
  if (len((*$0).chunks) < %19 + n("L0") + 1)
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not (%3@Ok.0 == %19)
  if (%3@Ok.0 + 1 == %19 + n("L0"))
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if (%3@Ok.0 == %19)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if not %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if (%3@Ok.0 == %19)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %28
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == %19 + 1)
  if not (len((*$0).chunks) == %3@Err.0)
  if (len((*$0).chunks) < %19 + n("L0") + 1)
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == %19 + 1)
  if (%3@Err.0 == %19 + n("L0"))
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == %19 + 1)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if not %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == %19 + 1)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %28
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%19 == 0)
  if not (len((*$0).chunks) == 1)
  if (len((*$0).chunks) < %19 + n("L0") + 1)
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%19 == 0)
  if (%19 + n("L0") == 1)
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%19 == 0)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if not %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%19 == 0)
  if not (len((*$0).starts) < %19 + 1)
  if not (len((*$0).chunks) < %19 + 1)
  if %27
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %28
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if not (%2 == %3@Ok.0 + 1)
  if not (len((*$0).chunks) == %3@Ok.0 + 1)
  if (len((*$0).chunks) < %2 + n("L0"))
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if not (%2 == %3@Ok.0 + 1)
  if (%2 + n("L0") == %3@Ok.0 + 2)
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if (%2 == %3@Ok.0 + 1)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if not %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if not (%3 is Err)
  if (%2 == %3@Ok.0 + 1)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %30
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%2 == %3@Err.0)
  if not (len((*$0).chunks) == %3@Err.0)
  if (len((*$0).chunks) < %2 + n("L0"))
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%2 == %3@Err.0)
  if (%2 + n("L0") == %3@Err.0 + 1)
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%2 == %3@Err.0)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if not %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%2 == %3@Err.0)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %30
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%2 == 1)
  if not (len((*$0).chunks) == 1)
  if (len((*$0).chunks) < %2 + n("L0"))
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (%2 == 1)
  if (%2 + n("L0") == 2)
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%2 == 1)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if not %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (%2 == 1)
  if not (len((*$0).starts) < %2)
  if not (len((*$0).chunks) < %2)
  if %29
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %30
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if not (len((*$0).chunks) == %3@Ok.0 + 1)
  if (len((*$0).chunks) < n("L0") + 1)
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if (%3@Ok.0 + 1 == n("L0"))
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if not %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %32
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if not (len((*$0).chunks) == %3@Err.0)
  if (len((*$0).chunks) < n("L0") + 1)
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if (%3@Err.0 == n("L0"))
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if not %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %32
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if not %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if (%2 == 0)
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*$0).starts) < 1)
  if not (len((*$0).chunks) < 1)
  if %31
  do call "[T]::binary_search"(rv((*$0).starts), rv($1.start))
  do %3
  ret %32

fn <oak_core::source::streaming::ChunkedBuffer as oak_core::source::Source>::length
case
  ret (*$0).len

fn <oak_core::source::streaming::ChunkedBuffer as oak_core::source::Source>::source_id
case
  ret (*$0).source_id

fn <oak_core::source::streaming::ChunkedSource as oak_core::source::Source>::chunk_at
  holds (len((*(*$0).chunks)) == len((*(*$0).starts)))
  let %1 = (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 < len((*(*$0).starts)) + 1)
  let %2 = (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 < len((*(*$0).chunks)) + 1)
  let %3 = (len((*(*$0).starts)) < call "[T]::binary_search"((*$0).starts, rv($1))@Ok.0 + 1)
  let %4 = (len((*(*$0).chunks)) < call "[T]::binary_search"((*$0).starts, rv($1))@Ok.0 + 1)
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if (len((*(*$0).starts)) < 1)
  panics
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if (len((*(*$0).chunks)) < 1)
  panics
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  do call "[T]::binary_search"((*$0).starts, rv($1))
  ret new "oak_core::source::TextChunk"{start: (*(*$0).starts)[0], text: (*(*$0).chunks)[0]}
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if not %1
  panics
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if %1
  if not %2
  panics
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not (call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 == 0)
  if %1
  if %2
  do call "[T]::binary_search"((*$0).starts, rv($1))
  ret new "oak_core::source::TextChunk"{start: (*(*$0).starts)[(call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 - 1)], text: (*(*$0).chunks)[(call "[T]::binary_search"((*$0).starts, rv($1))@Err.0 - 1)]}
case
  if ($1 < (*$0).len)
  if not (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if %3
  panics
case
  if ($1 < (*$0).len)
  if not (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not %3
  if %4
  panics
case
  if ($1 < (*$0).len)
  if not (call "[T]::binary_search"((*$0).starts, rv($1)) is Err)
  if not %3
  if not %4
  do call "[T]::binary_search"((*$0).starts, rv($1))
  ret new "oak_core::source::TextChunk"{start: (*(*$0).starts)[call "[T]::binary_search"((*$0).starts, rv($1))@Ok.0], text: (*(*$0).chunks)[call "[T]::binary_search"((*$0).starts, rv($1))@Ok.0]}
case
  if not ($1 < (*$0).len)
  ret new "oak_core::source::TextChunk"{start: (*$0).len, text: ""}

fn <oak_core::source::streaming::ChunkedSource as oak_core::source::Source>::get_text_in
  holds (len((*(*$0).chunks)) == len((*(*$0).starts)))
  let %1 = (call "[T]::binary_search"((*$0).starts, rv($1.start)) is Err)
  let %2 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 == 0)
  let %3 = call "[T]::binary_search"((*$0).starts, rv(min((*$0).len, $1.end)))
  let %4 = true(validrange((*(*(*$0).chunks)[n("L0")]), max0(($1.start - (*(*$0).starts)[n("L0")])), max0((-(*(*$0).starts)[n("L0")] + min((*$0).len, $1.end)))))
  let %5 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[n("L0")]), max0(($1.start - (*(*$0).starts)[n("L0")])), max0((-(*(*$0).starts)[n("L0")] + min((*$0).len, $1.end))))>)
  let %6 = true(validrange((*(*(*$0).chunks)[n("L0")]), max0(($1.start - (*(*$0).starts)[n("L0")])), len((*(*(*$0).chunks)[n("L0")]))))
  let %7 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[n("L0")]), max0(($1.start - (*(*$0).starts)[n("L0")])), len((*(*(*$0).chunks)[n("L0")])))>)
  let %8 = true(validrange((*(*(*$0).chunks)[n("L0")]), 0, max0((-(*(*$0).starts)[n("L0")] + min((*$0).len, $1.end)))))
  let %9 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[n("L0")]), 0, max0((-(*(*$0).starts)[n("L0")] + min((*$0).len, $1.end))))>)
  let %10 = true(validrange((*(*(*$0).chunks)[n("L0")]), 0, len((*(*(*$0).chunks)[n("L0")]))))
  let %11 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 - 1)
  let %12 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 == 1)
  let %13 = (len((*(*$0).starts)) < call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0)
  let %14 = (len((*(*$0).chunks)) < call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0)
  let %15 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") < len((*(*$0).starts)) + 1)
  let %16 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == 2)
  let %17 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") < len((*(*$0).chunks)) + 1)
  let %18 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") - 1)
  let %19 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == 1)
  let %20 = true(validrange((*(*(*$0).chunks)[%18]), max0(($1.start - (*(*$0).starts)[%18])), max0((-(*(*$0).starts)[%18] + min((*$0).len, $1.end)))))
  let %21 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%18]), max0(($1.start - (*(*$0).starts)[%18])), max0((-(*(*$0).starts)[%18] + min((*$0).len, $1.end))))>)
  let %22 = true(validrange((*(*(*$0).chunks)[%18]), max0(($1.start - (*(*$0).starts)[%18])), len((*(*(*$0).chunks)[%18]))))
  let %23 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%18]), max0(($1.start - (*(*$0).starts)[%18])), len((*(*(*$0).chunks)[%18])))>)
  let %24 = true(validrange((*(*(*$0).chunks)[%18]), 0, max0((-(*(*$0).starts)[%18] + min((*$0).len, $1.end)))))
  let %25 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%18]), 0, max0((-(*(*$0).starts)[%18] + min((*$0).len, $1.end))))>)
  let %26 = true(validrange((*(*(*$0).chunks)[%18]), 0, len((*(*(*$0).chunks)[%18]))))
  let %27 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 == %3@Err.0)
  let %28 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == %3@Err.0 + 1)
  let %29 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == %3@Err.0)
  let %30 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 == %3@Ok.0 + 1)
  let %31 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == %3@Ok.0 + 2)
  let %32 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Err.0 + n("L0") == %3@Ok.0 + 1)
  let %33 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 == 0)
  let %34 = (len((*(*$0).starts)) < call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + 1)
  let %35 = (len((*(*$0).chunks)) < call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + 1)
  let %36 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") < len((*(*$0).starts)))
  let %37 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == 1)
  let %38 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") < len((*(*$0).chunks)))
  let %39 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0"))
  let %40 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == 0)
  let %41 = true(validrange((*(*(*$0).chunks)[%39]), max0(($1.start - (*(*$0).starts)[%39])), max0((-(*(*$0).starts)[%39] + min((*$0).len, $1.end)))))
  let %42 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%39]), max0(($1.start - (*(*$0).starts)[%39])), max0((-(*(*$0).starts)[%39] + min((*$0).len, $1.end))))>)
  let %43 = true(validrange((*(*(*$0).chunks)[%39]), max0(($1.start - (*(*$0).starts)[%39])), len((*(*(*$0).chunks)[%39]))))
  let %44 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%39]), max0(($1.start - (*(*$0).starts)[%39])), len((*(*(*$0).chunks)[%39])))>)
  let %45 = true(validrange((*(*(*$0).chunks)[%39]), 0, max0((-(*(*$0).starts)[%39] + min((*$0).len, $1.end)))))
  let %46 = cat(<lv("L0", "v0"), slice((*(*(*$0).chunks)[%39]), 0, max0((-(*(*$0).starts)[%39] + min((*$0).len, $1.end))))>)
  let %47 = true(validrange((*(*(*$0).chunks)[%39]), 0, len((*(*(*$0).chunks)[%39]))))
  let %48 = (%3@Err.0 == call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + 1)
  let %49 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == %3@Err.0)
  let %50 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") + 1 == %3@Err.0)
  let %51 = (%3@Ok.0 == call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0)
  let %52 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == %3@Ok.0 + 1)
  let %53 = (call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0 + n("L0") == %3@Ok.0)
  let %54 = (*(*(*$0).chunks)[call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0])
  let %55 = (*(*$0).starts)[call "[T]::binary_search"((*$0).starts, rv($1.start))@Ok.0]
  let %56 = true(validrange(%54, ($1.start - %55), (-%55 + min((*$0).len, $1.end))))
  let %57 = new "alloc::borrow::Cow" Borrowed{0: rv(slice(%54, ($1.start - %55), (-%55 + min((*$0).len, $1.end))))}
  let %58 = true(validrange((*(*(*$0).chunks)[%11]), ($1.start - (*(*$0).starts)[%11]), (-(*(*$0).starts)[%11] + min((*$0).len, $1.end))))
  let %59 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*(*$0).chunks)[%11]), ($1.start - (*(*$0).starts)[%11]), (-(*(*$0).starts)[%11] + min((*$0).len, $1.end))))}
  let %60 = true(validrange((*(*(*$0).chunks)[0]), ($1.start - (*(*$0).starts)[0]), (-(*(*$0).starts)[0] + min((*$0).len, $1.end))))
  let %61 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*(*$0).chunks)[0]), ($1.start - (*(*$0).starts)[0]), (-(*(*$0).starts)[0] + min((*$0).len, $1.end))))}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if (len((*(*$0).starts)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if (len((*(*$0).chunks)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if (len((*(*$0).starts)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*(*$0).starts)) < 1)
  if (len((*(*$0).chunks)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if not (len((*(*$0).starts)) == %3@Err.0)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not (n("L0") < len((*(*$0).starts)))
  loop L0 @0 | v0 from ""
  panics
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if (n("L0") + 1 == %3@Err.0)
  if %4
  loop L0 @0 | v0 from ""
  then v0 := %5
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if (n("L0") + 1 == %3@Err.0)
  if not %4
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if not (n("L0") + 1 == %3@Err.0)
  if %6
  loop L0 @0 | v0 from ""
  then v0 := %7
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if not (n("L0") + 1 == %3@Err.0)
  if not %6
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if (n("L0") + 1 == %3@Err.0)
  if %8
  loop L0 @0 | v0 from ""
  then v0 := %9
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if (n("L0") + 1 == %3@Err.0)
  if not %8
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if not (n("L0") + 1 == %3@Err.0)
  if %10
  loop L0 @0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[n("L0")]>)
pass L0
  if not (n("L0") == %3@Err.0)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if not (n("L0") + 1 == %3@Err.0)
  if not %10
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if (len((*(*$0).starts)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if (len((*(*$0).chunks)) < 1)
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if not (len((*(*$0).starts)) == %3@Ok.0 + 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not (n("L0") < len((*(*$0).starts)))
  loop L0 @1 | v0 from ""
  panics
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if (n("L0") == %3@Ok.0)
  if %4
  loop L0 @1 | v0 from ""
  then v0 := %5
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if (n("L0") == %3@Ok.0)
  if not %4
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if not (n("L0") == %3@Ok.0)
  if %6
  loop L0 @1 | v0 from ""
  then v0 := %7
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if (n("L0") == 0)
  if not (n("L0") == %3@Ok.0)
  if not %6
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if (n("L0") == %3@Ok.0)
  if %8
  loop L0 @1 | v0 from ""
  then v0 := %9
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if (n("L0") == %3@Ok.0)
  if not %8
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if not (n("L0") == %3@Ok.0)
  if %10
  loop L0 @1 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[n("L0")]>)
pass L0
  if not (n("L0") == %3@Ok.0 + 1)
  if (n("L0") < len((*(*$0).chunks)))
  if (n("L0") < len((*(*$0).starts)))
  if not (n("L0") == 0)
  if not (n("L0") == %3@Ok.0)
  if not %10
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %12
  if %13
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %12
  if not %13
  if %14
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %12
  if not (len((*(*$0).starts)) == 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %15
  loop L0 @2 | v0 from ""
  panics
pass L0
  if not %16
  if %17
  if %15
  if (n("L0") == 0)
  if %19
  if %20
  loop L0 @2 | v0 from ""
  then v0 := %21
pass L0
  if not %16
  if %17
  if %15
  if (n("L0") == 0)
  if %19
  if not %20
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %16
  if %17
  if %15
  if (n("L0") == 0)
  if not %19
  if %22
  loop L0 @2 | v0 from ""
  then v0 := %23
pass L0
  if not %16
  if %17
  if %15
  if (n("L0") == 0)
  if not %19
  if not %22
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %16
  if %17
  if %15
  if not (n("L0") == 0)
  if %19
  if %24
  loop L0 @2 | v0 from ""
  then v0 := %25
pass L0
  if not %16
  if %17
  if %15
  if not (n("L0") == 0)
  if %19
  if not %24
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %16
  if %17
  if %15
  if not (n("L0") == 0)
  if not %19
  if %26
  loop L0 @2 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%18]>)
pass L0
  if not %16
  if %17
  if %15
  if not (n("L0") == 0)
  if not %19
  if not %26
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %27
  if %13
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %27
  if not %13
  if %14
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %27
  if not (len((*(*$0).starts)) == %3@Err.0)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %15
  loop L0 @3 | v0 from ""
  panics
pass L0
  if not %28
  if %17
  if %15
  if (n("L0") == 0)
  if %29
  if %20
  loop L0 @3 | v0 from ""
  then v0 := %21
pass L0
  if not %28
  if %17
  if %15
  if (n("L0") == 0)
  if %29
  if not %20
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %28
  if %17
  if %15
  if (n("L0") == 0)
  if not %29
  if %22
  loop L0 @3 | v0 from ""
  then v0 := %23
pass L0
  if not %28
  if %17
  if %15
  if (n("L0") == 0)
  if not %29
  if not %22
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %28
  if %17
  if %15
  if not (n("L0") == 0)
  if %29
  if %24
  loop L0 @3 | v0 from ""
  then v0 := %25
pass L0
  if not %28
  if %17
  if %15
  if not (n("L0") == 0)
  if %29
  if not %24
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %28
  if %17
  if %15
  if not (n("L0") == 0)
  if not %29
  if %26
  loop L0 @3 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%18]>)
pass L0
  if not %28
  if %17
  if %15
  if not (n("L0") == 0)
  if not %29
  if not %26
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if %30
  if %13
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if %30
  if not %13
  if %14
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if not %30
  if not (len((*(*$0).starts)) == %3@Ok.0 + 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %15
  loop L0 @4 | v0 from ""
  panics
pass L0
  if not %31
  if %17
  if %15
  if (n("L0") == 0)
  if %32
  if %20
  loop L0 @4 | v0 from ""
  then v0 := %21
pass L0
  if not %31
  if %17
  if %15
  if (n("L0") == 0)
  if %32
  if not %20
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %31
  if %17
  if %15
  if (n("L0") == 0)
  if not %32
  if %22
  loop L0 @4 | v0 from ""
  then v0 := %23
pass L0
  if not %31
  if %17
  if %15
  if (n("L0") == 0)
  if not %32
  if not %22
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %31
  if %17
  if %15
  if not (n("L0") == 0)
  if %32
  if %24
  loop L0 @4 | v0 from ""
  then v0 := %25
pass L0
  if not %31
  if %17
  if %15
  if not (n("L0") == 0)
  if %32
  if not %24
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %31
  if %17
  if %15
  if not (n("L0") == 0)
  if not %32
  if %26
  loop L0 @4 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%18]>)
pass L0
  if not %31
  if %17
  if %15
  if not (n("L0") == 0)
  if not %32
  if not %26
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %33
  if %34
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %33
  if not %34
  if %35
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %33
  if not (len((*(*$0).starts)) == 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %36
  loop L0 @5 | v0 from ""
  panics
pass L0
  if not %37
  if %38
  if %36
  if (n("L0") == 0)
  if %40
  if %41
  loop L0 @5 | v0 from ""
  then v0 := %42
pass L0
  if not %37
  if %38
  if %36
  if (n("L0") == 0)
  if %40
  if not %41
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %37
  if %38
  if %36
  if (n("L0") == 0)
  if not %40
  if %43
  loop L0 @5 | v0 from ""
  then v0 := %44
pass L0
  if not %37
  if %38
  if %36
  if (n("L0") == 0)
  if not %40
  if not %43
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %37
  if %38
  if %36
  if not (n("L0") == 0)
  if %40
  if %45
  loop L0 @5 | v0 from ""
  then v0 := %46
pass L0
  if not %37
  if %38
  if %36
  if not (n("L0") == 0)
  if %40
  if not %45
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %37
  if %38
  if %36
  if not (n("L0") == 0)
  if not %40
  if %47
  loop L0 @5 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%39]>)
pass L0
  if not %37
  if %38
  if %36
  if not (n("L0") == 0)
  if not %40
  if not %47
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %48
  if %34
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %48
  if not %34
  if %35
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %48
  if not (len((*(*$0).starts)) == %3@Err.0)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %36
  loop L0 @6 | v0 from ""
  panics
pass L0
  if not %49
  if %38
  if %36
  if (n("L0") == 0)
  if %50
  if %41
  loop L0 @6 | v0 from ""
  then v0 := %42
pass L0
  if not %49
  if %38
  if %36
  if (n("L0") == 0)
  if %50
  if not %41
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %49
  if %38
  if %36
  if (n("L0") == 0)
  if not %50
  if %43
  loop L0 @6 | v0 from ""
  then v0 := %44
pass L0
  if not %49
  if %38
  if %36
  if (n("L0") == 0)
  if not %50
  if not %43
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %49
  if %38
  if %36
  if not (n("L0") == 0)
  if %50
  if %45
  loop L0 @6 | v0 from ""
  then v0 := %46
pass L0
  if not %49
  if %38
  if %36
  if not (n("L0") == 0)
  if %50
  if not %45
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %49
  if %38
  if %36
  if not (n("L0") == 0)
  if not %50
  if %47
  loop L0 @6 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%39]>)
pass L0
  if not %49
  if %38
  if %36
  if not (n("L0") == 0)
  if not %50
  if not %47
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if %51
  if %34
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if %51
  if not %34
  if %35
  panics
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not %51
  if not (len((*(*$0).starts)) == %3@Ok.0 + 1)
  if (len((*(*$0).starts)) < len((*(*$0).chunks)))
  if not %36
  loop L0 @7 | v0 from ""
  panics
pass L0
  if not %52
  if %38
  if %36
  if (n("L0") == 0)
  if %53
  if %41
  loop L0 @7 | v0 from ""
  then v0 := %42
pass L0
  if not %52
  if %38
  if %36
  if (n("L0") == 0)
  if %53
  if not %41
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %52
  if %38
  if %36
  if (n("L0") == 0)
  if not %53
  if %43
  loop L0 @7 | v0 from ""
  then v0 := %44
pass L0
  if not %52
  if %38
  if %36
  if (n("L0") == 0)
  if not %53
  if not %43
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %52
  if %38
  if %36
  if not (n("L0") == 0)
  if %53
  if %45
  loop L0 @7 | v0 from ""
  then v0 := %46
pass L0
  if not %52
  if %38
  if %36
  if not (n("L0") == 0)
  if %53
  if not %45
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %52
  if %38
  if %36
  if not (n("L0") == 0)
  if not %53
  if %47
  loop L0 @7 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*(*$0).chunks)[%39]>)
pass L0
  if not %52
  if %38
  if %36
  if not (n("L0") == 0)
  if not %53
  if not %47
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($1.start < $1.end)
  if ((*$0).len < $1.start + 1)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if not ($1.start < $1.end)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not %51
  if not (len((*(*$0).chunks)) == %3@Ok.0 + 1)
  if not %38
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if not %51
  if %52
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if %51
  if not %34
  if not %35
  if not %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if not (%3 is Err)
  if %51
  if not %34
  if not %35
  if %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %57
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %48
  if not (len((*(*$0).chunks)) == %3@Err.0)
  if not %38
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %48
  if %49
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %48
  if not %34
  if not %35
  if not %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %48
  if not %34
  if not %35
  if %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %57
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %33
  if not (len((*(*$0).chunks)) == 1)
  if not %38
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %33
  if %37
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %33
  if not %34
  if not %35
  if not %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if not %1
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %33
  if not %34
  if not %35
  if %56
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %57
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if not %30
  if not (len((*(*$0).chunks)) == %3@Ok.0 + 1)
  if not %17
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if not %30
  if %31
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if %30
  if not %13
  if not %14
  if not %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if not (%3 is Err)
  if %30
  if not %13
  if not %14
  if %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %59
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %27
  if not (len((*(*$0).chunks)) == %3@Err.0)
  if not %17
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not %27
  if %28
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %27
  if not %13
  if not %14
  if not %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if %27
  if not %13
  if not %14
  if %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %59
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %12
  if not (len((*(*$0).chunks)) == 1)
  if not %17
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not %12
  if %16
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %12
  if not %13
  if not %14
  if not %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if not %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if %12
  if not %13
  if not %14
  if %58
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %59
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if not (len((*(*$0).chunks)) == %3@Ok.0 + 1)
  if not (n("L0") < len((*(*$0).chunks)))
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if not (%3@Ok.0 == 0)
  if (n("L0") == %3@Ok.0 + 1)
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if not %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if not (%3 is Err)
  if (%3@Ok.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %61
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if not (len((*(*$0).chunks)) == %3@Err.0)
  if not (n("L0") < len((*(*$0).chunks)))
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if not (%3@Err.0 == 1)
  if (n("L0") == %3@Err.0)
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if not %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if not (%3@Err.0 == 0)
  if (%3@Err.0 == 1)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %61
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if not %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($1.start < $1.end)
  if not ((*$0).len < $1.start + 1)
  if %1
  if %2
  if (%3 is Err)
  if (%3@Err.0 == 0)
  if not (len((*(*$0).starts)) < 1)
  if not (len((*(*$0).chunks)) < 1)
  if %60
  do call "[T]::binary_search"((*$0).starts, rv($1.start))
  do %3
  ret %61

fn <oak_core::source::streaming::ChunkedSource as oak_core::source::Source>::length
case
  ret (*$0).len

fn <oak_core::source::streaming::ChunkedSource as oak_core::source::Source>::source_id
case
  ret (*$0).source_id

fn oak_core::source::rope::RopeBuffer::boundary_index  [private]
  takes &oak_core::source::rope::RopeBuffer; usize
  holds (len((*$0).chunks) == len((*$0).starts))
case
  if ($1 < (*$0).len)
  if (call "[T]::binary_search"(rv((*$0).starts), rv($1)) is Err)
  do call "[T]::binary_search"(rv((*$0).starts), rv($1))
  ret call "[T]::binary_search"(rv((*$0).starts), rv($1))@Err.0
case
  if ($1 < (*$0).len)
  if not (call "[T]::binary_search"(rv((*$0).starts), rv($1)) is Err)
  do call "[T]::binary_search"(rv((*$0).starts), rv($1))
  ret call "[T]::binary_search"(rv((*$0).starts), rv($1))@Ok.0
case
  if not ($1 < (*$0).len)
  ret len((*$0).chunks)

fn oak_core::source::rope::RopeBuffer::chunk_index  [private]
  takes &oak_core::source::rope::RopeBuffer; usize
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = call "[T]::binary_search"(rv((*$0).starts), rv(min($1, max0(((*$0).len - 1)))))
case
  if (%1 is Err)
  if (%1@Err.0 == 0)
  do %1
  ret tup{0: 0, 1: 0}
case
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if (%1@Err.0 < len((*$0).starts) + 1)
  do %1
  ret tup{0: (%1@Err.0 - 1), 1: (*$0).starts[(%1@Err.0 - 1)]}
case
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  do %1
  ret tup{0: %1@Ok.0, 1: (*$0).starts[%1@Ok.0]}

fn oak_core::source::rope::RopeBuffer::new
  given oak_core::source::rope::RopeBuffer::new_with_id
case
  do call "oak_core::source::rope::RopeBuffer::new_with_id"($0, new "core::option::Option" None{})
  ret call "oak_core::source::rope::RopeBuffer::new_with_id"($0, new "core::option::Option" None{})

fn oak_core::source::rope::RopeBuffer::new_with_id
  let %1 = call "str::is_char_boundary"(rv(display('d', $0)), lv("L1", "v0"))
  let %2 = vpush(lv("L0", "v1"), slice(display('d', $0), lv("L0", "v0"), lv("L1", "v0")))
case
  if (len(display('d', $0)) == 0)
  ret new "oak_core::source::rope::RopeBuffer"{source_id: call "into"("core::option::Option<u32>", $1), chunks: vnew(), starts: vnew(), len: 0}
case
  if not (len(display('d', $0)) == 0)
  if (len(display('d', $0)) < lv("L0", "v0") + 1)
  if (len(lv("L0", "v1")) < n("L1") + 1)
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from vnew()
  ret new "oak_core::source::rope::RopeBuffer"{source_id: call "into"("core::option::Option<u32>", $1), chunks: lv("L0", "v1"), starts: lv("L1", "v0"), len: sum(j0, 0, len(lv("L0", "v1")), len((*lv("L0", "v1")[?j0])))}
pass L0
  if not (len(display('d', $0)) < lv("L0", "v0") + 1)
  if not (lv("L0", "v0") < lv("L1", "v0"))
  if (lv("L0", "v0") == lv("L1", "v0"))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min(len(display('d', $0)), (lv("L0", "v0") + 4096))
  then v0 := len(display('d', $0))
  then v1 := vpush(lv("L0", "v1"), slice(display('d', $0), lv("L0", "v0"), len(display('d', $0))))
pass L1
  if (lv("L0", "v0") < lv("L1", "v0"))
  if not true(%1)
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min(len(display('d', $0)), (lv("L0", "v0") + 4096))
  do %1
  then v0 := (lv("L1", "v0") - 1)
pass L0
  if not (len(display('d', $0)) < lv("L0", "v0") + 1)
  if not (lv("L0", "v0") < lv("L1", "v0"))
  if not (lv("L0", "v0") == lv("L1", "v0"))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min(len(display('d', $0)), (lv("L0", "v0") + 4096))
  then v0 := lv("L1", "v0")
  then v1 := %2
pass L0
  if not (len(display('d', $0)) < lv("L0", "v0") + 1)
  if (lv("L0", "v0") < lv("L1", "v0"))
  if true(%1)
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min(len(display('d', $0)), (lv("L0", "v0") + 4096))
  do %1
  then v0 := lv("L1", "v0")
  then v1 := %2
pass L1
  if not (len(lv("L0", "v1")) < n("L1") + 1)
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from vnew()
  then v0 := vpush(lv("L1", "v0"), sum(j0, 0, n("L1"), len((*lv("L0", "v1")[?j0]))))

fn oak_core::source::rope::RopeBuffer::snapshot
case
  ret new "oak_core::source::rope::RopeSource"{source_id: (*$0).source_id, chunks: (*$0).chunks, starts: (*$0).starts, len: (*$0).len}

fn oak_core::source::rope::RopeBuffer::split_at  [private]
  takes &mut oak_core::source::rope::RopeBuffer; usize
  holds (len((*$0).chunks) == len((*$0).starts))
  let %1 = call "[T]::binary_search"(rv((*$0).starts), rv(min($1, max0(((*$0).len - 1)))))
  let %2 = true(validrange((*(*$0).chunks[0]), $1, len((*(*$0).chunks[0]))))
  let %3 = call "alloc::vec::Vec::insert"(rv(iset((*$0).chunks, 0, slice((*(*$0).chunks[0]), 0, $1))), 1, slice((*(*$0).chunks[0]), $1, len((*(*$0).chunks[0]))))
  let %4 = true(validrange((*(*$0).chunks[%1@Ok.0]), 0, ($1 - (*$0).starts[%1@Ok.0])))
  let %5 = true(validrange((*(*$0).chunks[%1@Ok.0]), ($1 - (*$0).starts[%1@Ok.0]), len((*(*$0).chunks[%1@Ok.0]))))
  let %6 = call "alloc::vec::Vec::insert"(rv(iset((*$0).chunks, %1@Ok.0, slice((*(*$0).chunks[%1@Ok.0]), 0, ($1 - (*$0).starts[%1@Ok.0])))), (%1@Ok.0 + 1), slice((*(*$0).chunks[%1@Ok.0]), ($1 - (*$0).starts[%1@Ok.0]), len((*(*$0).chunks[%1@Ok.0]))))
  let %7 = ($1 < (*$0).starts[(%1@Err.0 - 1)] + len((*(*$0).chunks[(%1@Err.0 - 1)])))
  let %8 = true(validrange((*(*$0).chunks[(%1@Err.0 - 1)]), 0, ($1 - (*$0).starts[(%1@Err.0 - 1)])))
  let %9 = true(validrange((*(*$0).chunks[(%1@Err.0 - 1)]), ($1 - (*$0).starts[(%1@Err.0 - 1)]), len((*(*$0).chunks[(%1@Err.0 - 1)]))))
  let %10 = call "alloc::vec::Vec::insert"(rv(iset((*$0).chunks, (%1@Err.0 - 1), slice((*(*$0).chunks[(%1@Err.0 - 1)]), 0, ($1 - (*$0).starts[(%1@Err.0 - 1)])))), %1@Err.0, slice((*(*$0).chunks[(%1@Err.0 - 1)]), ($1 - (*$0).starts[(%1@Err.0 - 1)]), len((*(*$0).chunks[(%1@Err.0 - 1)]))))
case
  if ($1 == 0)
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  if ($1 < len((*(*$0).chunks[0])))
  if true(validrange((*(*$0).chunks[0]), 0, $1))
  if %2
  if not (n("L0") < len(post(0, %3)))
  loop L0 @0 | v0 from vnew()
  do %1
  do %3
  set $0 := ((*$0) with {chunks: post(0, %3), len: sum(j0, 0, len(post(0, %3)), len((*post(0, %3)[?j0]))), starts: lv("L0", "v0")})
  ret tup{}
pass L0
  if (n("L0") < len(post(0, %3)))
  loop L0 @0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), sum(j0, 0, n("L0"), len((*post(0, %3)[?j0]))))
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  if ($1 < len((*(*$0).chunks[0])))
  if true(validrange((*(*$0).chunks[0]), 0, $1))
  if not %2
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  if ($1 < len((*(*$0).chunks[0])))
  if not true(validrange((*(*$0).chunks[0]), 0, $1))
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if (%1@Err.0 == 0)
  if not (len((*$0).chunks) < 1)
  if not ($1 < len((*(*$0).chunks[0])))
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if (%1@Ok.0 < len((*$0).chunks))
  if ($1 == (*$0).starts[%1@Ok.0])
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if (%1@Ok.0 < len((*$0).chunks))
  if not ($1 == (*$0).starts[%1@Ok.0])
  if ($1 < (*$0).starts[%1@Ok.0] + len((*(*$0).chunks[%1@Ok.0])))
  if %4
  if %5
  if not (n("L0") < len(post(0, %6)))
  loop L0 @1 | v0 from vnew()
  do %1
  do %6
  set $0 := ((*$0) with {chunks: post(0, %6), len: sum(j0, 0, len(post(0, %6)), len((*post(0, %6)[?j0]))), starts: lv("L0", "v0")})
  ret tup{}
pass L0
  if (n("L0") < len(post(0, %6)))
  loop L0 @1 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), sum(j0, 0, n("L0"), len((*post(0, %6)[?j0]))))
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if (%1@Ok.0 < len((*$0).chunks))
  if not ($1 == (*$0).starts[%1@Ok.0])
  if ($1 < (*$0).starts[%1@Ok.0] + len((*(*$0).chunks[%1@Ok.0])))
  if %4
  if not %5
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if (%1@Ok.0 < len((*$0).chunks))
  if not ($1 == (*$0).starts[%1@Ok.0])
  if ($1 < (*$0).starts[%1@Ok.0] + len((*(*$0).chunks[%1@Ok.0])))
  if not %4
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if not (%1 is Err)
  if not (len((*$0).starts) < %1@Ok.0 + 1)
  if (%1@Ok.0 < len((*$0).chunks))
  if not ($1 == (*$0).starts[%1@Ok.0])
  if not ($1 < (*$0).starts[%1@Ok.0] + len((*(*$0).chunks[%1@Ok.0])))
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if (%1@Err.0 < len((*$0).starts) + 1)
  if (%1@Err.0 < len((*$0).chunks) + 1)
  if ($1 == (*$0).starts[(%1@Err.0 - 1)])
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if (%1@Err.0 < len((*$0).starts) + 1)
  if (%1@Err.0 < len((*$0).chunks) + 1)
  if not ($1 == (*$0).starts[(%1@Err.0 - 1)])
  if %7
  if %8
  if %9
  if not (n("L0") < len(post(0, %10)))
  loop L0 @2 | v0 from vnew()
  do %1
  do %10
  set $0 := ((*$0) with {chunks: post(0, %10), len: sum(j0, 0, len(post(0, %10)), len((*post(0, %10)[?j0]))), starts: lv("L0", "v0")})
  ret tup{}
pass L0
  if (n("L0") < len(post(0, %10)))
  loop L0 @2 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), sum(j0, 0, n("L0"), len((*post(0, %10)[?j0]))))
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if (%1@Err.0 < len((*$0).starts) + 1)
  if (%1@Err.0 < len((*$0).chunks) + 1)
  if not ($1 == (*$0).starts[(%1@Err.0 - 1)])
  if %7
  if %8
  if not %9
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if (%1@Err.0 < len((*$0).starts) + 1)
  if (%1@Err.0 < len((*$0).chunks) + 1)
  if not ($1 == (*$0).starts[(%1@Err.0 - 1)])
  if %7
  if not %8
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if ($1 < (*$0).len)
  if (%1 is Err)
  if not (%1@Err.0 == 0)
  if (%1@Err.0 < len((*$0).starts) + 1)
  if (%1@Err.0 < len((*$0).chunks) + 1)
  if not ($1 == (*$0).starts[(%1@Err.0 - 1)])
  if not %7
  do %1
  ret tup{}
case
  if not ($1 == 0)
  if not ($1 < (*$0).len)
  ret tup{}

fn oak_core::source::rope::chunkify  [private]
  takes &str
  let %1 = vpush(lv("L0", "v1"), slice((*$0), lv("L0", "v0"), lv("L1", "v0")))
case
  if (len((*$0)) == 0)
  ret vnew()
case
  if not (len((*$0)) == 0)
  if not (lv("L0", "v0") < len((*$0)))
  loop L0 | v0 from 0 | v1 from vnew()
  ret lv("L0", "v1")
pass L0
  if (lv("L0", "v0") < len((*$0)))
  if not (lv("L0", "v0") < lv("L1", "v0"))
  if (lv("L0", "v0") == lv("L1", "v0"))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$0)))
  then v0 := len((*$0))
  then v1 := vpush(lv("L0", "v1"), slice((*$0), lv("L0", "v0"), len((*$0))))
pass L1
  if (lv("L0", "v0") < lv("L1", "v0"))
  if not true(call "str::is_char_boundary"($0, lv("L1", "v0")))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$0)))
  do call "str::is_char_boundary"($0, lv("L1", "v0"))
  then v0 := (lv("L1", "v0") - 1)
pass L0
  if (lv("L0", "v0") < len((*$0)))
  if not (lv("L0", "v0") < lv("L1", "v0"))
  if not (lv("L0", "v0") == lv("L1", "v0"))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$0)))
  then v0 := lv("L1", "v0")
  then v1 := %1
pass L0
  if (lv("L0", "v0") < len((*$0)))
  if (lv("L0", "v0") < lv("L1", "v0"))
  if true(call "str::is_char_boundary"($0, lv("L1", "v0")))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$0)))
  do call "str::is_char_boundary"($0, lv("L1", "v0"))
  then v0 := lv("L1", "v0")
  then v1 := %1

fn oak_core::source::rope::rebuild_starts  [private]
  takes &[triomphe::arc::Arc<str>]
case
  if not (n("L0") < len((*$0)))
  loop L0 | v0 from vnew()
  ret tup{0: lv("L0", "v0"), 1: sum(j0, 0, len((*$0)), len((*(*$0)[?j0])))}
pass L0
  if (n("L0") < len((*$0)))
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), sum(j0, 0, n("L0"), len((*(*$0)[?j0]))))

fn oak_core::source::rope::text_in_chunks  [private]
  takes &[triomphe::arc::Arc<str>]; &[usize]; usize; core::range::Range<usize>
  holds (len((*$0)) == len((*$1)))
  let %1 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 == 0)
  let %2 = true(validrange((*(*$0)[0]), ($3.start - (*$1)[0]), (-(*$1)[0] + min($3.end, $2))))
  let %3 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0)[0]), ($3.start - (*$1)[0]), (-(*$1)[0] + min($3.end, $2))))}
  let %4 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 == 1)
  let %5 = (n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %6 = (n("L0") + 1 == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %7 = true(validrange((*(*$0)[n("L0")]), max0(($3.start - (*$1)[n("L0")])), max0((-(*$1)[n("L0")] + min($3.end, $2)))))
  let %8 = cat(<lv("L0", "v0"), slice((*(*$0)[n("L0")]), max0(($3.start - (*$1)[n("L0")])), max0((-(*$1)[n("L0")] + min($3.end, $2))))>)
  let %9 = true(validrange((*(*$0)[n("L0")]), max0(($3.start - (*$1)[n("L0")])), len((*(*$0)[n("L0")]))))
  let %10 = cat(<lv("L0", "v0"), slice((*(*$0)[n("L0")]), max0(($3.start - (*$1)[n("L0")])), len((*(*$0)[n("L0")])))>)
  let %11 = true(validrange((*(*$0)[n("L0")]), 0, max0((-(*$1)[n("L0")] + min($3.end, $2)))))
  let %12 = cat(<lv("L0", "v0"), slice((*(*$0)[n("L0")]), 0, max0((-(*$1)[n("L0")] + min($3.end, $2))))>)
  let %13 = true(validrange((*(*$0)[n("L0")]), 0, len((*(*$0)[n("L0")]))))
  let %14 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 == len((*$1)))
  let %15 = (len((*$0)) == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %16 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 == 0)
  let %17 = (n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %18 = (n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0)
  let %19 = (len((*$1)) == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %20 = (len((*$0)) == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %21 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 < len((*$1)) + 1)
  let %22 = (len((*$0)) < call "[T]::binary_search"($1, rv($3.start))@Err.0)
  let %23 = (*(*$0)[(call "[T]::binary_search"($1, rv($3.start))@Err.0 - 1)])
  let %24 = (*$1)[(call "[T]::binary_search"($1, rv($3.start))@Err.0 - 1)]
  let %25 = true(validrange(%23, ($3.start - %24), (-%24 + min($3.end, $2))))
  let %26 = new "alloc::borrow::Cow" Borrowed{0: rv(slice(%23, ($3.start - %24), (-%24 + min($3.end, $2))))}
  let %27 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == 2)
  let %28 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") < len((*$0)) + 1)
  let %29 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") < len((*$1)) + 1)
  let %30 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") - 1)
  let %31 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == 1)
  let %32 = true(validrange((*(*$0)[%30]), max0(($3.start - (*$1)[%30])), max0((-(*$1)[%30] + min($3.end, $2)))))
  let %33 = cat(<lv("L0", "v0"), slice((*(*$0)[%30]), max0(($3.start - (*$1)[%30])), max0((-(*$1)[%30] + min($3.end, $2))))>)
  let %34 = true(validrange((*(*$0)[%30]), max0(($3.start - (*$1)[%30])), len((*(*$0)[%30]))))
  let %35 = cat(<lv("L0", "v0"), slice((*(*$0)[%30]), max0(($3.start - (*$1)[%30])), len((*(*$0)[%30])))>)
  let %36 = true(validrange((*(*$0)[%30]), 0, max0((-(*$1)[%30] + min($3.end, $2)))))
  let %37 = cat(<lv("L0", "v0"), slice((*(*$0)[%30]), 0, max0((-(*$1)[%30] + min($3.end, $2))))>)
  let %38 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %39 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 + 1)
  let %40 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %41 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %42 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 2)
  let %43 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %44 = (len((*$1)) < call "[T]::binary_search"($1, rv($3.start))@Ok.0 + 1)
  let %45 = (len((*$0)) < call "[T]::binary_search"($1, rv($3.start))@Ok.0 + 1)
  let %46 = ($3.start - (*$1)[call "[T]::binary_search"($1, rv($3.start))@Ok.0])
  let %47 = (-(*$1)[call "[T]::binary_search"($1, rv($3.start))@Ok.0] + min($3.end, $2))
  let %48 = true(validrange((*(*$0)[call "[T]::binary_search"($1, rv($3.start))@Ok.0]), %46, %47))
  let %49 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0)[call "[T]::binary_search"($1, rv($3.start))@Ok.0]), %46, %47))}
  let %50 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == 1)
  let %51 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") < len((*$0)))
  let %52 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") < len((*$1)))
  let %53 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == 0)
  let %54 = (*$0)[(call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0"))]
  let %55 = (*$1)[(call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0"))]
  let %56 = true(validrange((*%54), max0(($3.start - %55)), max0((-%55 + min($3.end, $2)))))
  let %57 = cat(<lv("L0", "v0"), slice((*%54), max0(($3.start - %55)), max0((-%55 + min($3.end, $2))))>)
  let %58 = true(validrange((*%54), max0(($3.start - %55)), len((*%54))))
  let %59 = cat(<lv("L0", "v0"), slice((*%54), max0(($3.start - %55)), len((*%54)))>)
  let %60 = cat(<lv("L0", "v0"), slice((*%54), 0, max0((-%55 + min($3.end, $2))))>)
  let %61 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 == call "[T]::binary_search"($1, rv($3.start))@Ok.0 + 1)
  let %62 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %63 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") + 1 == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %64 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 == call "[T]::binary_search"($1, rv($3.start))@Ok.0)
  let %65 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %66 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0)
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (len((*$1)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (len((*$1)) < 1)
  if (len((*$0)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %3
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if not %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %4
  if (len((*$1)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %4
  if not (len((*$1)) < 1)
  if (len((*$0)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %4
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %3
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %4
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if not %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %4
  if %5
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if %6
  if %7
  loop L0 @0 | v0 from ""
  then v0 := %8
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if %6
  if not %7
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if not %6
  if %9
  loop L0 @0 | v0 from ""
  then v0 := %10
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if not %6
  if not %9
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if %6
  if %11
  loop L0 @0 | v0 from ""
  then v0 := %12
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if %6
  if not %11
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if not %6
  if %13
  loop L0 @0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[n("L0")]>)
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if not %6
  if not %13
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %4
  if not %14
  if not (len((*$0)) < len((*$1)) + 1)
  if not (n("L0") < len((*$1)))
  loop L0 @0 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %4
  if not %15
  if not (n("L0") < len((*$0)))
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %16
  if (len((*$1)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %16
  if not (len((*$1)) < 1)
  if (len((*$0)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %16
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %3
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %16
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if not %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %16
  if %17
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if %18
  if %7
  loop L0 @1 | v0 from ""
  then v0 := %8
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if %18
  if not %7
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if not %18
  if %9
  loop L0 @1 | v0 from ""
  then v0 := %10
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if not %18
  if not %9
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if %18
  if %11
  loop L0 @1 | v0 from ""
  then v0 := %12
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if %18
  if not %11
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if not %18
  if %13
  loop L0 @1 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[n("L0")]>)
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if not %18
  if not %13
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %16
  if not %19
  if not (len((*$0)) < len((*$1)) + 1)
  if not (n("L0") < len((*$1)))
  loop L0 @1 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %16
  if not %20
  if not (n("L0") < len((*$0)))
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if not %21
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if %21
  if %22
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if %21
  if not %22
  if %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %26
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if %21
  if not %22
  if not %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if %27
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %27
  if %28
  if %29
  if (n("L0") == 0)
  if %31
  if %32
  loop L0 @2 | v0 from ""
  then v0 := %33
pass L0
  if not %27
  if %28
  if %29
  if (n("L0") == 0)
  if %31
  if not %32
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %27
  if %28
  if %29
  if (n("L0") == 0)
  if not %31
  if %34
  loop L0 @2 | v0 from ""
  then v0 := %35
pass L0
  if not %27
  if %28
  if %29
  if (n("L0") == 0)
  if not %31
  if not %34
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %27
  if %28
  if %29
  if not (n("L0") == 0)
  if %31
  if %36
  loop L0 @2 | v0 from ""
  then v0 := %37
pass L0
  if not %27
  if %28
  if %29
  if not (n("L0") == 0)
  if %31
  if not %36
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %27
  if %28
  if %29
  if not (n("L0") == 0)
  if not %31
  if true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @2 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[%30]>)
pass L0
  if not %27
  if %28
  if %29
  if not (n("L0") == 0)
  if not %31
  if not true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if not (len((*$1)) == 1)
  if not (len((*$0)) < len((*$1)) + 1)
  if not %29
  loop L0 @2 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if not (len((*$0)) == 1)
  if not %28
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %38
  if not %21
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %38
  if %21
  if %22
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %38
  if %21
  if not %22
  if %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %26
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %38
  if %21
  if not %22
  if not %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %38
  if %39
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %39
  if %28
  if %29
  if (n("L0") == 0)
  if %40
  if %32
  loop L0 @3 | v0 from ""
  then v0 := %33
pass L0
  if not %39
  if %28
  if %29
  if (n("L0") == 0)
  if %40
  if not %32
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %39
  if %28
  if %29
  if (n("L0") == 0)
  if not %40
  if %34
  loop L0 @3 | v0 from ""
  then v0 := %35
pass L0
  if not %39
  if %28
  if %29
  if (n("L0") == 0)
  if not %40
  if not %34
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %39
  if %28
  if %29
  if not (n("L0") == 0)
  if %40
  if %36
  loop L0 @3 | v0 from ""
  then v0 := %37
pass L0
  if not %39
  if %28
  if %29
  if not (n("L0") == 0)
  if %40
  if not %36
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %39
  if %28
  if %29
  if not (n("L0") == 0)
  if not %40
  if true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @3 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[%30]>)
pass L0
  if not %39
  if %28
  if %29
  if not (n("L0") == 0)
  if not %40
  if not true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %38
  if not %14
  if not (len((*$0)) < len((*$1)) + 1)
  if not %29
  loop L0 @3 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %38
  if not %15
  if not %28
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %41
  if not %21
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %41
  if %21
  if %22
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %41
  if %21
  if not %22
  if %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %26
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %41
  if %21
  if not %22
  if not %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %41
  if %42
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %42
  if %28
  if %29
  if (n("L0") == 0)
  if %43
  if %32
  loop L0 @4 | v0 from ""
  then v0 := %33
pass L0
  if not %42
  if %28
  if %29
  if (n("L0") == 0)
  if %43
  if not %32
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %42
  if %28
  if %29
  if (n("L0") == 0)
  if not %43
  if %34
  loop L0 @4 | v0 from ""
  then v0 := %35
pass L0
  if not %42
  if %28
  if %29
  if (n("L0") == 0)
  if not %43
  if not %34
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %42
  if %28
  if %29
  if not (n("L0") == 0)
  if %43
  if %36
  loop L0 @4 | v0 from ""
  then v0 := %37
pass L0
  if not %42
  if %28
  if %29
  if not (n("L0") == 0)
  if %43
  if not %36
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %42
  if %28
  if %29
  if not (n("L0") == 0)
  if not %43
  if true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @4 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[%30]>)
pass L0
  if not %42
  if %28
  if %29
  if not (n("L0") == 0)
  if not %43
  if not true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %41
  if not %19
  if not (len((*$0)) < len((*$1)) + 1)
  if not %29
  loop L0 @4 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %41
  if not %20
  if not %28
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if %44
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not %44
  if %45
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not %44
  if not %45
  if %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %49
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not %44
  if not %45
  if not %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if %50
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %50
  if %51
  if %52
  if (n("L0") == 0)
  if %53
  if %56
  loop L0 @5 | v0 from ""
  then v0 := %57
pass L0
  if not %50
  if %51
  if %52
  if (n("L0") == 0)
  if %53
  if not %56
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %50
  if %51
  if %52
  if (n("L0") == 0)
  if not %53
  if %58
  loop L0 @5 | v0 from ""
  then v0 := %59
pass L0
  if not %50
  if %51
  if %52
  if (n("L0") == 0)
  if not %53
  if not %58
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %50
  if %51
  if %52
  if not (n("L0") == 0)
  if %53
  if true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @5 | v0 from ""
  then v0 := %60
pass L0
  if not %50
  if %51
  if %52
  if not (n("L0") == 0)
  if %53
  if not true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %50
  if %51
  if %52
  if not (n("L0") == 0)
  if not %53
  if true(validrange((*%54), 0, len((*%54))))
  loop L0 @5 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), %54>)
pass L0
  if not %50
  if %51
  if %52
  if not (n("L0") == 0)
  if not %53
  if not true(validrange((*%54), 0, len((*%54))))
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not (len((*$1)) == 1)
  if not (len((*$0)) < len((*$1)) + 1)
  if not %52
  loop L0 @5 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not (len((*$0)) == 1)
  if not %51
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %61
  if %44
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %61
  if not %44
  if %45
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %61
  if not %44
  if not %45
  if %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %49
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %61
  if not %44
  if not %45
  if not %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %61
  if %62
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %62
  if %51
  if %52
  if (n("L0") == 0)
  if %63
  if %56
  loop L0 @6 | v0 from ""
  then v0 := %57
pass L0
  if not %62
  if %51
  if %52
  if (n("L0") == 0)
  if %63
  if not %56
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %62
  if %51
  if %52
  if (n("L0") == 0)
  if not %63
  if %58
  loop L0 @6 | v0 from ""
  then v0 := %59
pass L0
  if not %62
  if %51
  if %52
  if (n("L0") == 0)
  if not %63
  if not %58
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %62
  if %51
  if %52
  if not (n("L0") == 0)
  if %63
  if true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @6 | v0 from ""
  then v0 := %60
pass L0
  if not %62
  if %51
  if %52
  if not (n("L0") == 0)
  if %63
  if not true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %62
  if %51
  if %52
  if not (n("L0") == 0)
  if not %63
  if true(validrange((*%54), 0, len((*%54))))
  loop L0 @6 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), %54>)
pass L0
  if not %62
  if %51
  if %52
  if not (n("L0") == 0)
  if not %63
  if not true(validrange((*%54), 0, len((*%54))))
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %61
  if not %14
  if not (len((*$0)) < len((*$1)) + 1)
  if not %52
  loop L0 @6 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %61
  if not %15
  if not %51
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %64
  if %44
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %64
  if not %44
  if %45
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %64
  if not %44
  if not %45
  if %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %49
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %64
  if not %44
  if not %45
  if not %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %64
  if %65
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %65
  if %51
  if %52
  if (n("L0") == 0)
  if %66
  if %56
  loop L0 @7 | v0 from ""
  then v0 := %57
pass L0
  if not %65
  if %51
  if %52
  if (n("L0") == 0)
  if %66
  if not %56
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %65
  if %51
  if %52
  if (n("L0") == 0)
  if not %66
  if %58
  loop L0 @7 | v0 from ""
  then v0 := %59
pass L0
  if not %65
  if %51
  if %52
  if (n("L0") == 0)
  if not %66
  if not %58
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %65
  if %51
  if %52
  if not (n("L0") == 0)
  if %66
  if true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @7 | v0 from ""
  then v0 := %60
pass L0
  if not %65
  if %51
  if %52
  if not (n("L0") == 0)
  if %66
  if not true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %65
  if %51
  if %52
  if not (n("L0") == 0)
  if not %66
  if true(validrange((*%54), 0, len((*%54))))
  loop L0 @7 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), %54>)
pass L0
  if not %65
  if %51
  if %52
  if not (n("L0") == 0)
  if not %66
  if not true(validrange((*%54), 0, len((*%54))))
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %64
  if not %19
  if not (len((*$0)) < len((*$1)) + 1)
  if not %52
  loop L0 @7 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %64
  if not %20
  if not %51
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if not ($3.start < $2)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if not ($3.start < $3.end)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}

fn oak_core::source::streaming::ChunkedBuffer::new
case
  ret new "oak_core::source::streaming::ChunkedBuffer"{source_id: new "core::option::Option" None{}, chunks: vnew(), starts: vnew(), len: 0}

fn oak_core::source::streaming::ChunkedBuffer::new_with_id
case
  ret new "oak_core::source::streaming::ChunkedBuffer"{source_id: call "into"("core::option::Option<u32>", $0), chunks: vnew(), starts: vnew(), len: 0}

fn oak_core::source::streaming::ChunkedBuffer::push_str
  let %1 = vpush(lv("L0", "v1"), slice((*$1), lv("L0", "v0"), lv("L1", "v0")))
case
  if (len((*$1)) == 0)
  ret tup{}
case
  if not (len((*$1)) == 0)
  if not (lv("L0", "v0") < len((*$1)))
  if (len(lv("L0", "v1")) < n("L1") + 1)
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from (*$0).chunks | v1 from (*$0).starts
  set $0 := ((*$0) with {chunks: lv("L1", "v0"), len: ((*$0).len + sum(j0, 0, len(lv("L0", "v1")), len((*lv("L0", "v1")[?j0])))), starts: lv("L1", "v1")})
  ret tup{}
pass L0
  if (lv("L0", "v0") < len((*$1)))
  if not (lv("L0", "v0") < lv("L1", "v0"))
  if (lv("L0", "v0") == lv("L1", "v0"))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$1)))
  then v0 := len((*$1))
  then v1 := vpush(lv("L0", "v1"), slice((*$1), lv("L0", "v0"), len((*$1))))
pass L1
  if (lv("L0", "v0") < lv("L1", "v0"))
  if not true(call "str::is_char_boundary"($1, lv("L1", "v0")))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$1)))
  do call "str::is_char_boundary"($1, lv("L1", "v0"))
  then v0 := (lv("L1", "v0") - 1)
pass L0
  if (lv("L0", "v0") < len((*$1)))
  if not (lv("L0", "v0") < lv("L1", "v0"))
  if not (lv("L0", "v0") == lv("L1", "v0"))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$1)))
  then v0 := lv("L1", "v0")
  then v1 := %1
pass L0
  if (lv("L0", "v0") < len((*$1)))
  if (lv("L0", "v0") < lv("L1", "v0"))
  if true(call "str::is_char_boundary"($1, lv("L1", "v0")))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$1)))
  do call "str::is_char_boundary"($1, lv("L1", "v0"))
  then v0 := lv("L1", "v0")
  then v1 := %1
pass L1
  if not (len(lv("L0", "v1")) < n("L1") + 1)
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from (*$0).chunks | v1 from (*$0).starts
  then v0 := vpush(lv("L1", "v0"), lv("L0", "v1")[n("L1")])
  then v1 := vpush(lv("L1", "v1"), ((*$0).len + sum(j0, 0, n("L1"), len((*lv("L0", "v1")[?j0])))))

fn oak_core::source::streaming::ChunkedBuffer::snapshot
case
  ret new "oak_core::source::streaming::ChunkedSource"{source_id: (*$0).source_id, chunks: (*$0).chunks, starts: (*$0).starts, len: (*$0).len}

fn oak_core::source::streaming::chunkify  [private]
  takes &str
  let %1 = vpush(lv("L0", "v1"), slice((*$0), lv("L0", "v0"), lv("L1", "v0")))
case
  if (len((*$0)) == 0)
  ret vnew()
case
  if not (len((*$0)) == 0)
  if not (lv("L0", "v0") < len((*$0)))
  loop L0 | v0 from 0 | v1 from vnew()
  ret lv("L0", "v1")
pass L0
  if (lv("L0", "v0") < len((*$0)))
  if not (lv("L0", "v0") < lv("L1", "v0"))
  if (lv("L0", "v0") == lv("L1", "v0"))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$0)))
  then v0 := len((*$0))
  then v1 := vpush(lv("L0", "v1"), slice((*$0), lv("L0", "v0"), len((*$0))))
pass L1
  if (lv("L0", "v0") < lv("L1", "v0"))
  if not true(call "str::is_char_boundary"($0, lv("L1", "v0")))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$0)))
  do call "str::is_char_boundary"($0, lv("L1", "v0"))
  then v0 := (lv("L1", "v0") - 1)
pass L0
  if (lv("L0", "v0") < len((*$0)))
  if not (lv("L0", "v0") < lv("L1", "v0"))
  if not (lv("L0", "v0") == lv("L1", "v0"))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$0)))
  then v0 := lv("L1", "v0")
  then v1 := %1
pass L0
  if (lv("L0", "v0") < len((*$0)))
  if (lv("L0", "v0") < lv("L1", "v0"))
  if true(call "str::is_char_boundary"($0, lv("L1", "v0")))
  loop L0 | v0 from 0 | v1 from vnew()
  loop L1 | v0 from min((lv("L0", "v0") + 4096), len((*$0)))
  do call "str::is_char_boundary"($0, lv("L1", "v0"))
  then v0 := lv("L1", "v0")
  then v1 := %1

fn oak_core::source::streaming::text_in_chunks  [private]
  takes &[triomphe::arc::Arc<str>]; &[usize]; usize; core::range::Range<usize>
  holds (len((*$0)) == len((*$1)))
  let %1 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 == 0)
  let %2 = true(validrange((*(*$0)[0]), ($3.start - (*$1)[0]), (-(*$1)[0] + min($3.end, $2))))
  let %3 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0)[0]), ($3.start - (*$1)[0]), (-(*$1)[0] + min($3.end, $2))))}
  let %4 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 == 1)
  let %5 = (n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %6 = (n("L0") + 1 == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %7 = true(validrange((*(*$0)[n("L0")]), max0(($3.start - (*$1)[n("L0")])), max0((-(*$1)[n("L0")] + min($3.end, $2)))))
  let %8 = cat(<lv("L0", "v0"), slice((*(*$0)[n("L0")]), max0(($3.start - (*$1)[n("L0")])), max0((-(*$1)[n("L0")] + min($3.end, $2))))>)
  let %9 = true(validrange((*(*$0)[n("L0")]), max0(($3.start - (*$1)[n("L0")])), len((*(*$0)[n("L0")]))))
  let %10 = cat(<lv("L0", "v0"), slice((*(*$0)[n("L0")]), max0(($3.start - (*$1)[n("L0")])), len((*(*$0)[n("L0")])))>)
  let %11 = true(validrange((*(*$0)[n("L0")]), 0, max0((-(*$1)[n("L0")] + min($3.end, $2)))))
  let %12 = cat(<lv("L0", "v0"), slice((*(*$0)[n("L0")]), 0, max0((-(*$1)[n("L0")] + min($3.end, $2))))>)
  let %13 = true(validrange((*(*$0)[n("L0")]), 0, len((*(*$0)[n("L0")]))))
  let %14 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 == len((*$1)))
  let %15 = (len((*$0)) == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %16 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 == 0)
  let %17 = (n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %18 = (n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0)
  let %19 = (len((*$1)) == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %20 = (len((*$0)) == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %21 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 < len((*$1)) + 1)
  let %22 = (len((*$0)) < call "[T]::binary_search"($1, rv($3.start))@Err.0)
  let %23 = (*(*$0)[(call "[T]::binary_search"($1, rv($3.start))@Err.0 - 1)])
  let %24 = (*$1)[(call "[T]::binary_search"($1, rv($3.start))@Err.0 - 1)]
  let %25 = true(validrange(%23, ($3.start - %24), (-%24 + min($3.end, $2))))
  let %26 = new "alloc::borrow::Cow" Borrowed{0: rv(slice(%23, ($3.start - %24), (-%24 + min($3.end, $2))))}
  let %27 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == 2)
  let %28 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") < len((*$0)) + 1)
  let %29 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") < len((*$1)) + 1)
  let %30 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") - 1)
  let %31 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == 1)
  let %32 = true(validrange((*(*$0)[%30]), max0(($3.start - (*$1)[%30])), max0((-(*$1)[%30] + min($3.end, $2)))))
  let %33 = cat(<lv("L0", "v0"), slice((*(*$0)[%30]), max0(($3.start - (*$1)[%30])), max0((-(*$1)[%30] + min($3.end, $2))))>)
  let %34 = true(validrange((*(*$0)[%30]), max0(($3.start - (*$1)[%30])), len((*(*$0)[%30]))))
  let %35 = cat(<lv("L0", "v0"), slice((*(*$0)[%30]), max0(($3.start - (*$1)[%30])), len((*(*$0)[%30])))>)
  let %36 = true(validrange((*(*$0)[%30]), 0, max0((-(*$1)[%30] + min($3.end, $2)))))
  let %37 = cat(<lv("L0", "v0"), slice((*(*$0)[%30]), 0, max0((-(*$1)[%30] + min($3.end, $2))))>)
  let %38 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %39 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 + 1)
  let %40 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %41 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %42 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 2)
  let %43 = (call "[T]::binary_search"($1, rv($3.start))@Err.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %44 = (len((*$1)) < call "[T]::binary_search"($1, rv($3.start))@Ok.0 + 1)
  let %45 = (len((*$0)) < call "[T]::binary_search"($1, rv($3.start))@Ok.0 + 1)
  let %46 = ($3.start - (*$1)[call "[T]::binary_search"($1, rv($3.start))@Ok.0])
  let %47 = (-(*$1)[call "[T]::binary_search"($1, rv($3.start))@Ok.0] + min($3.end, $2))
  let %48 = true(validrange((*(*$0)[call "[T]::binary_search"($1, rv($3.start))@Ok.0]), %46, %47))
  let %49 = new "alloc::borrow::Cow" Borrowed{0: rv(slice((*(*$0)[call "[T]::binary_search"($1, rv($3.start))@Ok.0]), %46, %47))}
  let %50 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == 1)
  let %51 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") < len((*$0)))
  let %52 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") < len((*$1)))
  let %53 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == 0)
  let %54 = (*$0)[(call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0"))]
  let %55 = (*$1)[(call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0"))]
  let %56 = true(validrange((*%54), max0(($3.start - %55)), max0((-%55 + min($3.end, $2)))))
  let %57 = cat(<lv("L0", "v0"), slice((*%54), max0(($3.start - %55)), max0((-%55 + min($3.end, $2))))>)
  let %58 = true(validrange((*%54), max0(($3.start - %55)), len((*%54))))
  let %59 = cat(<lv("L0", "v0"), slice((*%54), max0(($3.start - %55)), len((*%54)))>)
  let %60 = cat(<lv("L0", "v0"), slice((*%54), 0, max0((-%55 + min($3.end, $2))))>)
  let %61 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0 == call "[T]::binary_search"($1, rv($3.start))@Ok.0 + 1)
  let %62 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %63 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") + 1 == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Err.0)
  let %64 = (call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 == call "[T]::binary_search"($1, rv($3.start))@Ok.0)
  let %65 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0 + 1)
  let %66 = (call "[T]::binary_search"($1, rv($3.start))@Ok.0 + n("L0") == call "[T]::binary_search"($1, rv(min($3.end, $2)))@Ok.0)
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (len((*$1)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (len((*$1)) < 1)
  if (len((*$0)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %3
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if not %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %4
  if (len((*$1)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %4
  if not (len((*$1)) < 1)
  if (len((*$0)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %4
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %3
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %4
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if not %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %4
  if %5
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if %6
  if %7
  loop L0 @0 | v0 from ""
  then v0 := %8
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if %6
  if not %7
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if not %6
  if %9
  loop L0 @0 | v0 from ""
  then v0 := %10
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if not %6
  if not %9
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if %6
  if %11
  loop L0 @0 | v0 from ""
  then v0 := %12
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if %6
  if not %11
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if not %6
  if %13
  loop L0 @0 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[n("L0")]>)
pass L0
  if not %5
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if not %6
  if not %13
  loop L0 @0 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %4
  if not %14
  if not (len((*$0)) < len((*$1)) + 1)
  if not (n("L0") < len((*$1)))
  loop L0 @0 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %4
  if not %15
  if not (n("L0") < len((*$0)))
  loop L0 @0 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %16
  if (len((*$1)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %16
  if not (len((*$1)) < 1)
  if (len((*$0)) < 1)
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %16
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %3
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %16
  if not (len((*$1)) < 1)
  if not (len((*$0)) < 1)
  if not %2
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %16
  if %17
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if %18
  if %7
  loop L0 @1 | v0 from ""
  then v0 := %8
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if %18
  if not %7
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if not %18
  if %9
  loop L0 @1 | v0 from ""
  then v0 := %10
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if (n("L0") == 0)
  if not %18
  if not %9
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if %18
  if %11
  loop L0 @1 | v0 from ""
  then v0 := %12
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if %18
  if not %11
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if not %18
  if %13
  loop L0 @1 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[n("L0")]>)
pass L0
  if not %17
  if (n("L0") < len((*$0)))
  if (n("L0") < len((*$1)))
  if not (n("L0") == 0)
  if not %18
  if not %13
  loop L0 @1 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %16
  if not %19
  if not (len((*$0)) < len((*$1)) + 1)
  if not (n("L0") < len((*$1)))
  loop L0 @1 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %16
  if not %20
  if not (n("L0") < len((*$0)))
  loop L0 @1 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if not %21
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if %21
  if %22
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if %21
  if not %22
  if %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %26
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if %21
  if not %22
  if not %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if %27
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %27
  if %28
  if %29
  if (n("L0") == 0)
  if %31
  if %32
  loop L0 @2 | v0 from ""
  then v0 := %33
pass L0
  if not %27
  if %28
  if %29
  if (n("L0") == 0)
  if %31
  if not %32
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %27
  if %28
  if %29
  if (n("L0") == 0)
  if not %31
  if %34
  loop L0 @2 | v0 from ""
  then v0 := %35
pass L0
  if not %27
  if %28
  if %29
  if (n("L0") == 0)
  if not %31
  if not %34
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %27
  if %28
  if %29
  if not (n("L0") == 0)
  if %31
  if %36
  loop L0 @2 | v0 from ""
  then v0 := %37
pass L0
  if not %27
  if %28
  if %29
  if not (n("L0") == 0)
  if %31
  if not %36
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %27
  if %28
  if %29
  if not (n("L0") == 0)
  if not %31
  if true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @2 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[%30]>)
pass L0
  if not %27
  if %28
  if %29
  if not (n("L0") == 0)
  if not %31
  if not true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @2 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if not (len((*$1)) == 1)
  if not (len((*$0)) < len((*$1)) + 1)
  if not %29
  loop L0 @2 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 1)
  if not (len((*$0)) == 1)
  if not %28
  loop L0 @2 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %38
  if not %21
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %38
  if %21
  if %22
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %38
  if %21
  if not %22
  if %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %26
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %38
  if %21
  if not %22
  if not %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %38
  if %39
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %39
  if %28
  if %29
  if (n("L0") == 0)
  if %40
  if %32
  loop L0 @3 | v0 from ""
  then v0 := %33
pass L0
  if not %39
  if %28
  if %29
  if (n("L0") == 0)
  if %40
  if not %32
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %39
  if %28
  if %29
  if (n("L0") == 0)
  if not %40
  if %34
  loop L0 @3 | v0 from ""
  then v0 := %35
pass L0
  if not %39
  if %28
  if %29
  if (n("L0") == 0)
  if not %40
  if not %34
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %39
  if %28
  if %29
  if not (n("L0") == 0)
  if %40
  if %36
  loop L0 @3 | v0 from ""
  then v0 := %37
pass L0
  if not %39
  if %28
  if %29
  if not (n("L0") == 0)
  if %40
  if not %36
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %39
  if %28
  if %29
  if not (n("L0") == 0)
  if not %40
  if true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @3 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[%30]>)
pass L0
  if not %39
  if %28
  if %29
  if not (n("L0") == 0)
  if not %40
  if not true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @3 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %38
  if not %14
  if not (len((*$0)) < len((*$1)) + 1)
  if not %29
  loop L0 @3 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %38
  if not %15
  if not %28
  loop L0 @3 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %41
  if not %21
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %41
  if %21
  if %22
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %41
  if %21
  if not %22
  if %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %26
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %41
  if %21
  if not %22
  if not %25
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %41
  if %42
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %42
  if %28
  if %29
  if (n("L0") == 0)
  if %43
  if %32
  loop L0 @4 | v0 from ""
  then v0 := %33
pass L0
  if not %42
  if %28
  if %29
  if (n("L0") == 0)
  if %43
  if not %32
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %42
  if %28
  if %29
  if (n("L0") == 0)
  if not %43
  if %34
  loop L0 @4 | v0 from ""
  then v0 := %35
pass L0
  if not %42
  if %28
  if %29
  if (n("L0") == 0)
  if not %43
  if not %34
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %42
  if %28
  if %29
  if not (n("L0") == 0)
  if %43
  if %36
  loop L0 @4 | v0 from ""
  then v0 := %37
pass L0
  if not %42
  if %28
  if %29
  if not (n("L0") == 0)
  if %43
  if not %36
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %42
  if %28
  if %29
  if not (n("L0") == 0)
  if not %43
  if true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @4 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), (*$0)[%30]>)
pass L0
  if not %42
  if %28
  if %29
  if not (n("L0") == 0)
  if not %43
  if not true(validrange((*(*$0)[%30]), 0, len((*(*$0)[%30]))))
  loop L0 @4 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %41
  if not %19
  if not (len((*$0)) < len((*$1)) + 1)
  if not %29
  loop L0 @4 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv($3.start))@Err.0 == 0)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %41
  if not %20
  if not %28
  loop L0 @4 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if %44
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not %44
  if %45
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not %44
  if not %45
  if %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %49
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not %44
  if not %45
  if not %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if %50
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %50
  if %51
  if %52
  if (n("L0") == 0)
  if %53
  if %56
  loop L0 @5 | v0 from ""
  then v0 := %57
pass L0
  if not %50
  if %51
  if %52
  if (n("L0") == 0)
  if %53
  if not %56
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %50
  if %51
  if %52
  if (n("L0") == 0)
  if not %53
  if %58
  loop L0 @5 | v0 from ""
  then v0 := %59
pass L0
  if not %50
  if %51
  if %52
  if (n("L0") == 0)
  if not %53
  if not %58
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %50
  if %51
  if %52
  if not (n("L0") == 0)
  if %53
  if true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @5 | v0 from ""
  then v0 := %60
pass L0
  if not %50
  if %51
  if %52
  if not (n("L0") == 0)
  if %53
  if not true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %50
  if %51
  if %52
  if not (n("L0") == 0)
  if not %53
  if true(validrange((*%54), 0, len((*%54))))
  loop L0 @5 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), %54>)
pass L0
  if not %50
  if %51
  if %52
  if not (n("L0") == 0)
  if not %53
  if not true(validrange((*%54), 0, len((*%54))))
  loop L0 @5 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not (len((*$1)) == 1)
  if not (len((*$0)) < len((*$1)) + 1)
  if not %52
  loop L0 @5 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %1
  if not (call "[T]::binary_search"($1, rv($3.start))@Ok.0 == 0)
  if not (len((*$0)) == 1)
  if not %51
  loop L0 @5 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %61
  if %44
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %61
  if not %44
  if %45
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %61
  if not %44
  if not %45
  if %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %49
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if %61
  if not %44
  if not %45
  if not %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %61
  if %62
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %62
  if %51
  if %52
  if (n("L0") == 0)
  if %63
  if %56
  loop L0 @6 | v0 from ""
  then v0 := %57
pass L0
  if not %62
  if %51
  if %52
  if (n("L0") == 0)
  if %63
  if not %56
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %62
  if %51
  if %52
  if (n("L0") == 0)
  if not %63
  if %58
  loop L0 @6 | v0 from ""
  then v0 := %59
pass L0
  if not %62
  if %51
  if %52
  if (n("L0") == 0)
  if not %63
  if not %58
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %62
  if %51
  if %52
  if not (n("L0") == 0)
  if %63
  if true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @6 | v0 from ""
  then v0 := %60
pass L0
  if not %62
  if %51
  if %52
  if not (n("L0") == 0)
  if %63
  if not true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %62
  if %51
  if %52
  if not (n("L0") == 0)
  if not %63
  if true(validrange((*%54), 0, len((*%54))))
  loop L0 @6 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), %54>)
pass L0
  if not %62
  if %51
  if %52
  if not (n("L0") == 0)
  if not %63
  if not true(validrange((*%54), 0, len((*%54))))
  loop L0 @6 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %61
  if not %14
  if not (len((*$0)) < len((*$1)) + 1)
  if not %52
  loop L0 @6 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %1
  if not %61
  if not %15
  if not %51
  loop L0 @6 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %64
  if %44
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %64
  if not %44
  if %45
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %64
  if not %44
  if not %45
  if %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret %49
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if %64
  if not %44
  if not %45
  if not %48
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %64
  if %65
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
pass L0
  if not %65
  if %51
  if %52
  if (n("L0") == 0)
  if %66
  if %56
  loop L0 @7 | v0 from ""
  then v0 := %57
pass L0
  if not %65
  if %51
  if %52
  if (n("L0") == 0)
  if %66
  if not %56
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %65
  if %51
  if %52
  if (n("L0") == 0)
  if not %66
  if %58
  loop L0 @7 | v0 from ""
  then v0 := %59
pass L0
  if not %65
  if %51
  if %52
  if (n("L0") == 0)
  if not %66
  if not %58
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %65
  if %51
  if %52
  if not (n("L0") == 0)
  if %66
  if true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @7 | v0 from ""
  then v0 := %60
pass L0
  if not %65
  if %51
  if %52
  if not (n("L0") == 0)
  if %66
  if not true(validrange((*%54), 0, max0((-%55 + min($3.end, $2)))))
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
pass L0
  if not %65
  if %51
  if %52
  if not (n("L0") == 0)
  if not %66
  if true(validrange((*%54), 0, len((*%54))))
  loop L0 @7 | v0 from ""
  then v0 := cat(<lv("L0", "v0"), %54>)
pass L0
  if not %65
  if %51
  if %52
  if not (n("L0") == 0)
  if not %66
  if not true(validrange((*%54), 0, len((*%54))))
  loop L0 @7 | v0 from ""
  then v0 := lv("L0", "v0")
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %64
  if not %19
  if not (len((*$0)) < len((*$1)) + 1)
  if not %52
  loop L0 @7 | v0 from ""
  panics
case
  if ($3.start < $3.end)
  if ($3.start < $2)
  if not (call "[T]::binary_search"($1, rv($3.start)) is Err)
  if not (call "[T]::binary_search"($1, rv(min($3.end, $2))) is Err)
  if not %64
  if not %20
  if not %51
  loop L0 @7 | v0 from ""
  do call "[T]::binary_search"($1, rv($3.start))
  do call "[T]::binary_search"($1, rv(min($3.end, $2)))
  ret new "alloc::borrow::Cow" Owned{0: lv("L0", "v0")}
case
  if ($3.start < $3.end)
  if not ($3.start < $2)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
case
  if not ($3.start < $3.end)
  ret new "alloc::borrow::Cow" Borrowed{0: ""}
