fn <I as oak_pretty_print::document::JoinDoc>::join_doc
  given oak_pretty_print::document::Document::join
case
  do call "oak_pretty_print::document::Document::join"($0, $1)
  ret call "oak_pretty_print::document::Document::join"($0, $1)

fn <oak_pretty_print::document::Document as core::convert::From<&str>>::from
case
  ret new "oak_pretty_print::document::Document" Text{0: $0}

fn <oak_pretty_print::document::Document as core::convert::From<alloc::borrow::Cow>>::from
case
  ret new "oak_pretty_print::document::Document" Text{0: $0}

fn <oak_pretty_print::document::Document as core::convert::From<alloc::string::String>>::from
case
  ret new "oak_pretty_print::document::Document" Text{0: $0}

fn <oak_pretty_print::document::Document as oak_pretty_print::to_doc::AsDocument>::as_document
case
  if ((*$0) is Nil)
  ret new "oak_pretty_print::document::Document" Nil{}
case
  if ((*$0) is Text)
  ret new "oak_pretty_print::document::Document" Text{0: (*$0)@Text.0}
case
  if ((*$0) is Concat)
  ret new "oak_pretty_print::document::Document" Concat{0: (*$0)@Concat.0}
case
  if ((*$0) is Group)
  ret new "oak_pretty_print::document::Document" Group{0: (*$0)@Group.0}
case
  if ((*$0) is Indent)
  ret new "oak_pretty_print::document::Document" Indent{0: (*$0)@Indent.0}
case
  if ((*$0) is Line)
  ret new "oak_pretty_print::document::Document" Line{}
case
  if ((*$0) is SoftLine)
  ret new "oak_pretty_print::document::Document" SoftLine{}
case
  if ((*$0) is SoftLineSpace)
  ret new "oak_pretty_print::document::Document" SoftLineSpace{}
case
  if ((*$0) is HardLine)
  ret new "oak_pretty_print::document::Document" HardLine{}

fn <oak_pretty_print::document::Document as oak_pretty_print::to_doc::ToDocument>::to_document
case
  ret $0

fn oak_pretty_print::document::Document::concat
case
  ret new "oak_pretty_print::document::Document" Concat{0: $0}

fn oak_pretty_print::document::Document::group
case
  ret new "oak_pretty_print::document::Document" Group{0: box($0)}

fn oak_pretty_print::document::Document::indent
case
  ret new "oak_pretty_print::document::Document" Indent{0: box($0)}

fn oak_pretty_print::document::Document::join
  let %1 = call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))@Some.0
case
  if not (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  ret new "oak_pretty_print::document::Document" Concat{0: lv("L0", "v1")}
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if (%1.0 < 1)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(lv("L0", "v1"), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is Nil)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" Nil{}), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is Text)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" Text{0: $1@Text.0}), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is Concat)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" Concat{0: $1@Concat.0}), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is Group)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" Group{0: $1@Group.0}), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is Indent)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" Indent{0: $1@Indent.0}), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is Line)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" Line{}), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is SoftLine)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" SoftLine{}), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is SoftLineSpace)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" SoftLineSpace{}), %1.1)
pass L0
  if (call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1.0 < 1)
  if ($1 is HardLine)
  loop L0 | v0 from new "it.enum"{inner: $0, n: 0} | v1 from vnew()
  do call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<core::iter::adapters::enumerate::Enumerate as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(vpush(lv("L0", "v1"), new "oak_pretty_print::document::Document" HardLine{}), %1.1)

fn oak_pretty_print::document::Document::render
  given oak_pretty_print::document::printer::Printer::render
  let %1 = call "oak_pretty_print::document::printer::Printer::render"(rv(new "oak_pretty_print::document::printer::Printer"{config: $1, output: "", indent_level: 0, column: 0}), $0, 0)
  let %2 = call "str::trim_end_matches"(rv(post(0, %1).output), new "[]"{0: 32, 1: 9})
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if (len(%2) == 0)
  do %1
  do %2
  ret %2
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(%2) == 0)
  if true(call "str::ends_with"(rv(%2), 10))
  do %1
  do %2
  do call "str::ends_with"(rv(%2), 10)
  ret %2
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(%2) == 0)
  if not true(call "str::ends_with"(rv(%2), 10))
  if (post(0, %1).config.line_ending is Unix)
  do %1
  do %2
  do call "str::ends_with"(rv(%2), 10)
  ret cat(<%2, "\n">)
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(%2) == 0)
  if not true(call "str::ends_with"(rv(%2), 10))
  if (post(0, %1).config.line_ending is Windows)
  do %1
  do %2
  do call "str::ends_with"(rv(%2), 10)
  ret cat(<%2, "\r\n">)
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(%2) == 0)
  if not true(call "str::ends_with"(rv(%2), 10))
  if (post(0, %1).config.line_ending is Auto)
  do %1
  do %2
  do call "str::ends_with"(rv(%2), 10)
  ret cat(<%2, "\n">)
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if not true(post(0, %1).config.insert_final_newline)
  do %1
  do %2
  ret %2
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if (len(post(0, %1).output) == 0)
  do %1
  ret post(0, %1).output
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(post(0, %1).output) == 0)
  if true(call "str::ends_with"(rv(post(0, %1).output), 10))
  do %1
  do call "str::ends_with"(rv(post(0, %1).output), 10)
  ret post(0, %1).output
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(post(0, %1).output) == 0)
  if not true(call "str::ends_with"(rv(post(0, %1).output), 10))
  if (post(0, %1).config.line_ending is Unix)
  do %1
  do call "str::ends_with"(rv(post(0, %1).output), 10)
  ret cat(<post(0, %1).output, "\n">)
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(post(0, %1).output) == 0)
  if not true(call "str::ends_with"(rv(post(0, %1).output), 10))
  if (post(0, %1).config.line_ending is Windows)
  do %1
  do call "str::ends_with"(rv(post(0, %1).output), 10)
  ret cat(<post(0, %1).output, "\r\n">)
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(post(0, %1).output) == 0)
  if not true(call "str::ends_with"(rv(post(0, %1).output), 10))
  if (post(0, %1).config.line_ending is Auto)
  do %1
  do call "str::ends_with"(rv(post(0, %1).output), 10)
  ret cat(<post(0, %1).output, "\n">)
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if not true(post(0, %1).config.insert_final_newline)
  do %1
  ret post(0, %1).output

fn oak_pretty_print::document::Document::text
case
  ret new "oak_pretty_print::document::Document" Text{0: $0}

fn oak_pretty_print::document::printer::Printer::check_width  [private]
  takes &oak_pretty_print::document::printer::Printer; &oak_pretty_print::document::Document<>; &mut usize
  let %1 = call "oak_pretty_print::document::printer::Printer::check_width"($0, (*$1)@Indent.0, $2)
  let %2 = call "oak_pretty_print::document::printer::Printer::check_width"($0, (*$1)@Group.0, $2)
  let %3 = call "oak_pretty_print::document::printer::Printer::check_width"($0, rv((*$1)@Concat.0[n("L0")]), rv(lv("L0", "v0")))
case
  if ((*$0).config.max_width < (*$2))
  ret 1
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is Nil)
  ret 0
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is HardLine)
  ret 1
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is SoftLineSpace)
  set $2 := ((*$2) + 1)
  ret ((*$0).config.max_width < (*$2) + 1)
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is SoftLine)
  ret 0
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is Line)
  set $2 := ((*$2) + 1)
  ret ((*$0).config.max_width < (*$2) + 1)
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is Indent)
  do %1
  set $2 := post(2, %1)
  ret %1
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is Group)
  do %2
  set $2 := post(2, %2)
  ret %2
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is Concat)
  if not (n("L0") < len((*$1)@Concat.0))
  loop L0 | v0 from (*$2)
  set $2 := lv("L0", "v0")
  ret 0
pass L0
  if (n("L0") < len((*$1)@Concat.0))
  if not true(%3)
  loop L0 | v0 from (*$2)
  do %3
  then v0 := post(2, %3)
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is Concat)
  if (n("L0") < len((*$1)@Concat.0))
  if true(%3)
  loop L0 | v0 from (*$2)
  do %3
  set $2 := post(2, %3)
  ret 1
case
  if not ((*$0).config.max_width < (*$2))
  if ((*$1) is Text)
  set $2 := ((*$2) + len((*$1)@Text.0))
  ret ((*$0).config.max_width < (*$2) + len((*$1)@Text.0))

fn oak_pretty_print::document::printer::Printer::finalize  [private]
  takes &mut oak_pretty_print::document::printer::Printer
  let %1 = call "str::trim_end_matches"(rv((*$0).output), new "[]"{0: 32, 1: 9})
case
  if true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if (len(%1) == 0)
  do %1
  set $0 := ((*$0) with {output: %1})
  ret tup{}
case
  if true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if not (len(%1) == 0)
  if true(call "str::ends_with"(rv(%1), 10))
  do %1
  do call "str::ends_with"(rv(%1), 10)
  set $0 := ((*$0) with {output: %1})
  ret tup{}
case
  if true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if not (len(%1) == 0)
  if not true(call "str::ends_with"(rv(%1), 10))
  if ((*$0).config.line_ending is Unix)
  do %1
  do call "str::ends_with"(rv(%1), 10)
  set $0 := ((*$0) with {output: cat(<%1, "\n">)})
  ret tup{}
case
  if true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if not (len(%1) == 0)
  if not true(call "str::ends_with"(rv(%1), 10))
  if ((*$0).config.line_ending is Windows)
  do %1
  do call "str::ends_with"(rv(%1), 10)
  set $0 := ((*$0) with {output: cat(<%1, "\r\n">)})
  ret tup{}
case
  if true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if not (len(%1) == 0)
  if not true(call "str::ends_with"(rv(%1), 10))
  if ((*$0).config.line_ending is Auto)
  do %1
  do call "str::ends_with"(rv(%1), 10)
  set $0 := ((*$0) with {output: cat(<%1, "\n">)})
  ret tup{}
case
  if true((*$0).config.trim_trailing_whitespace)
  if not true((*$0).config.insert_final_newline)
  do %1
  set $0 := ((*$0) with {output: %1})
  ret tup{}
case
  if not true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if (len((*$0).output) == 0)
  ret tup{}
case
  if not true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if not (len((*$0).output) == 0)
  if true(call "str::ends_with"(rv((*$0).output), 10))
  do call "str::ends_with"(rv((*$0).output), 10)
  ret tup{}
case
  if not true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if not (len((*$0).output) == 0)
  if not true(call "str::ends_with"(rv((*$0).output), 10))
  if ((*$0).config.line_ending is Unix)
  do call "str::ends_with"(rv((*$0).output), 10)
  set $0 := ((*$0) with {output: cat(<(*$0).output, "\n">)})
  ret tup{}
case
  if not true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if not (len((*$0).output) == 0)
  if not true(call "str::ends_with"(rv((*$0).output), 10))
  if ((*$0).config.line_ending is Windows)
  do call "str::ends_with"(rv((*$0).output), 10)
  set $0 := ((*$0) with {output: cat(<(*$0).output, "\r\n">)})
  ret tup{}
case
  if not true((*$0).config.trim_trailing_whitespace)
  if true((*$0).config.insert_final_newline)
  if not (len((*$0).output) == 0)
  if not true(call "str::ends_with"(rv((*$0).output), 10))
  if ((*$0).config.line_ending is Auto)
  do call "str::ends_with"(rv((*$0).output), 10)
  set $0 := ((*$0) with {output: cat(<(*$0).output, "\n">)})
  ret tup{}
case
  if not true((*$0).config.trim_trailing_whitespace)
  if not true((*$0).config.insert_final_newline)
  ret tup{}

fn oak_pretty_print::document::printer::Printer::new
case
  ret new "oak_pretty_print::document::printer::Printer"{config: $0, output: "", indent_level: 0, column: 0}

fn oak_pretty_print::document::printer::Printer::newline  [private]
  takes &mut oak_pretty_print::document::printer::Printer
  let %1 = ((*$0) with {column: op('Mul', (*$0).indent_level, (*$0).config.indent_size), output: lv("L1", "v0")})
  let %2 = ((*$0) with {column: op('Mul', (*$0).indent_level, (*$0).config.indent_size), output: lv("L0", "v0")})
case
  if true((*$0).config.trim_trailing_whitespace)
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  if ((*$0).config.line_ending is Unix)
  if ((*$0).indent_level < n("L1") + 1)
  loop L0 | v0 from (*$0).output
  loop L1 @0 | v0 from cat(<lv("L0", "v0"), "\n">)
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  set $0 := %1
  ret tup{}
pass L0
  if true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  loop L0 | v0 from (*$0).output
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "alloc::string::String::pop"(rv(lv("L0", "v0")))
  then v0 := post(0, call "alloc::string::String::pop"(rv(lv("L0", "v0"))))
pass L0
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  loop L0 | v0 from (*$0).output
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  do call "alloc::string::String::pop"(rv(lv("L0", "v0")))
  then v0 := post(0, call "alloc::string::String::pop"(rv(lv("L0", "v0"))))
pass L1
  if not ((*$0).indent_level < n("L1") + 1)
  loop L0 | v0 from (*$0).output
  loop L1 | v0 from cat(<lv("L0", "v0"), "\n">)
  then v0 := cat(<lv("L1", "v0"), (*$0).config.indent_text>)
case
  if true((*$0).config.trim_trailing_whitespace)
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  if ((*$0).config.line_ending is Windows)
  if ((*$0).indent_level < n("L1") + 1)
  loop L0 | v0 from (*$0).output
  loop L1 | v0 from cat(<lv("L0", "v0"), "\r\n">)
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  set $0 := %1
  ret tup{}
pass L1
  if not ((*$0).indent_level < n("L1") + 1)
  loop L0 | v0 from (*$0).output
  loop L1 | v0 from cat(<lv("L0", "v0"), "\r\n">)
  then v0 := cat(<lv("L1", "v0"), (*$0).config.indent_text>)
case
  if true((*$0).config.trim_trailing_whitespace)
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  if ((*$0).config.line_ending is Auto)
  if ((*$0).indent_level < n("L1") + 1)
  loop L0 | v0 from (*$0).output
  loop L1 @1 | v0 from cat(<lv("L0", "v0"), "\n">)
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  set $0 := %1
  ret tup{}
case
  if not true((*$0).config.trim_trailing_whitespace)
  if ((*$0).config.line_ending is Unix)
  if not (n("L0") < (*$0).indent_level)
  loop L0 @2 | v0 from cat(<(*$0).output, "\n">)
  set $0 := %2
  ret tup{}
pass L0
  if (n("L0") < (*$0).indent_level)
  loop L0 | v0 from cat(<(*$0).output, "\n">)
  then v0 := cat(<lv("L0", "v0"), (*$0).config.indent_text>)
case
  if not true((*$0).config.trim_trailing_whitespace)
  if ((*$0).config.line_ending is Windows)
  if not (n("L0") < (*$0).indent_level)
  loop L0 | v0 from cat(<(*$0).output, "\r\n">)
  set $0 := %2
  ret tup{}
pass L0
  if (n("L0") < (*$0).indent_level)
  loop L0 | v0 from cat(<(*$0).output, "\r\n">)
  then v0 := cat(<lv("L0", "v0"), (*$0).config.indent_text>)
case
  if not true((*$0).config.trim_trailing_whitespace)
  if ((*$0).config.line_ending is Auto)
  if not (n("L0") < (*$0).indent_level)
  loop L0 @3 | v0 from cat(<(*$0).output, "\n">)
  set $0 := %2
  ret tup{}

fn oak_pretty_print::document::printer::Printer::print
  given oak_pretty_print::document::printer::Printer::render
  let %1 = call "oak_pretty_print::document::printer::Printer::render"(rv($0), $1, 0)
  let %2 = call "str::trim_end_matches"(rv(post(0, %1).output), new "[]"{0: 32, 1: 9})
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if (len(%2) == 0)
  do %1
  do %2
  ret %2
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if not true(post(0, %1).config.insert_final_newline)
  do %1
  ret post(0, %1).output
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(post(0, %1).output) == 0)
  if not true(call "str::ends_with"(rv(post(0, %1).output), 10))
  if (post(0, %1).config.line_ending is Auto)
  do %1
  do call "str::ends_with"(rv(post(0, %1).output), 10)
  ret cat(<post(0, %1).output, "\n">)
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(post(0, %1).output) == 0)
  if not true(call "str::ends_with"(rv(post(0, %1).output), 10))
  if (post(0, %1).config.line_ending is Windows)
  do %1
  do call "str::ends_with"(rv(post(0, %1).output), 10)
  ret cat(<post(0, %1).output, "\r\n">)
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(post(0, %1).output) == 0)
  if not true(call "str::ends_with"(rv(post(0, %1).output), 10))
  if (post(0, %1).config.line_ending is Unix)
  do %1
  do call "str::ends_with"(rv(post(0, %1).output), 10)
  ret cat(<post(0, %1).output, "\n">)
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(post(0, %1).output) == 0)
  if true(call "str::ends_with"(rv(post(0, %1).output), 10))
  do %1
  do call "str::ends_with"(rv(post(0, %1).output), 10)
  ret post(0, %1).output
case
  if not true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if (len(post(0, %1).output) == 0)
  do %1
  ret post(0, %1).output
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if not true(post(0, %1).config.insert_final_newline)
  do %1
  do %2
  ret %2
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(%2) == 0)
  if not true(call "str::ends_with"(rv(%2), 10))
  if (post(0, %1).config.line_ending is Auto)
  do %1
  do %2
  do call "str::ends_with"(rv(%2), 10)
  ret cat(<%2, "\n">)
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(%2) == 0)
  if not true(call "str::ends_with"(rv(%2), 10))
  if (post(0, %1).config.line_ending is Windows)
  do %1
  do %2
  do call "str::ends_with"(rv(%2), 10)
  ret cat(<%2, "\r\n">)
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(%2) == 0)
  if not true(call "str::ends_with"(rv(%2), 10))
  if (post(0, %1).config.line_ending is Unix)
  do %1
  do %2
  do call "str::ends_with"(rv(%2), 10)
  ret cat(<%2, "\n">)
case
  if true(post(0, %1).config.trim_trailing_whitespace)
  if true(post(0, %1).config.insert_final_newline)
  if not (len(%2) == 0)
  if true(call "str::ends_with"(rv(%2), 10))
  do %1
  do %2
  do call "str::ends_with"(rv(%2), 10)
  ret %2

fn oak_pretty_print::document::printer::Printer::render  [private]
  takes &mut oak_pretty_print::document::printer::Printer; &oak_pretty_print::document::Document<>; bool
  given oak_pretty_print::config::FormatConfig::line_ending_string
  given oak_pretty_print::document::printer::Printer::check_width
  let %1 = call "oak_pretty_print::config::FormatConfig::line_ending_string"(rv((*$0).config))
  let %2 = ((*$0) with {column: op('Mul', (*$0).indent_level, (*$0).config.indent_size), output: lv("L1", "v0")})
  let %3 = ((*$0) with {column: op('Mul', (*$0).indent_level, (*$0).config.indent_size), output: lv("L0", "v0")})
  let %4 = ((*$0) with {column: ((*$0).column + 1), output: cat(<(*$0).output, " ">)})
  let %5 = call "oak_pretty_print::document::printer::Printer::render"(rv(((*$0) with {indent_level: ((*$0).indent_level + 1)})), (*$1)@Indent.0, $2)
  let %6 = call "oak_pretty_print::document::printer::Printer::check_width"($0, (*$1)@Group.0, rv((*$0).column))
  let %7 = call "oak_pretty_print::document::printer::Printer::render"($0, (*$1)@Group.0, %6)
  let %8 = call "oak_pretty_print::document::printer::Printer::render"(rv(lv("L0", "v0")), rv((*$1)@Concat.0[n("L0")]), $2)
case
  if ((*$1) is Nil)
  ret tup{}
case
  if ((*$1) is HardLine)
  if true((*$0).config.trim_trailing_whitespace)
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  if ((*$0).indent_level < n("L1") + 1)
  loop L0 @0 | v0 from (*$0).output
  loop L1 @1 | v0 from cat(<lv("L0", "v0"), %1>)
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  do %1
  set $0 := %2
  ret tup{}
pass L0
  if true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  loop L0 | v0 from (*$0).output
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "alloc::string::String::pop"(rv(lv("L0", "v0")))
  then v0 := post(0, call "alloc::string::String::pop"(rv(lv("L0", "v0"))))
pass L0
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  loop L0 | v0 from (*$0).output
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  do call "alloc::string::String::pop"(rv(lv("L0", "v0")))
  then v0 := post(0, call "alloc::string::String::pop"(rv(lv("L0", "v0"))))
pass L1
  if not ((*$0).indent_level < n("L1") + 1)
  loop L0 | v0 from (*$0).output
  loop L1 | v0 from cat(<lv("L0", "v0"), %1>)
  then v0 := cat(<lv("L1", "v0"), (*$0).config.indent_text>)
case
  if ((*$1) is HardLine)
  if not true((*$0).config.trim_trailing_whitespace)
  if not (n("L0") < (*$0).indent_level)
  loop L0 @2 | v0 from cat(<(*$0).output, %1>)
  do %1
  set $0 := %3
  ret tup{}
pass L0
  if (n("L0") < (*$0).indent_level)
  loop L0 | v0 from cat(<(*$0).output, %1>)
  then v0 := cat(<lv("L0", "v0"), (*$0).config.indent_text>)
case
  if ((*$1) is SoftLineSpace)
  if true($2)
  if true((*$0).config.trim_trailing_whitespace)
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  if ((*$0).indent_level < n("L1") + 1)
  loop L0 @3 | v0 from (*$0).output
  loop L1 @4 | v0 from cat(<lv("L0", "v0"), %1>)
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  do %1
  set $0 := %2
  ret tup{}
case
  if ((*$1) is SoftLineSpace)
  if true($2)
  if not true((*$0).config.trim_trailing_whitespace)
  if not (n("L0") < (*$0).indent_level)
  loop L0 @5 | v0 from cat(<(*$0).output, %1>)
  do %1
  set $0 := %3
  ret tup{}
case
  if ((*$1) is SoftLineSpace)
  if not true($2)
  set $0 := %4
  ret tup{}
case
  if ((*$1) is SoftLine)
  if true($2)
  if true((*$0).config.trim_trailing_whitespace)
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  if ((*$0).indent_level < n("L1") + 1)
  loop L0 @6 | v0 from (*$0).output
  loop L1 @7 | v0 from cat(<lv("L0", "v0"), %1>)
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  do %1
  set $0 := %2
  ret tup{}
case
  if ((*$1) is SoftLine)
  if true($2)
  if not true((*$0).config.trim_trailing_whitespace)
  if not (n("L0") < (*$0).indent_level)
  loop L0 @8 | v0 from cat(<(*$0).output, %1>)
  do %1
  set $0 := %3
  ret tup{}
case
  if ((*$1) is SoftLine)
  if not true($2)
  ret tup{}
case
  if ((*$1) is Line)
  if true($2)
  if true((*$0).config.trim_trailing_whitespace)
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 32))
  if not true(call "str::ends_with"(rv(lv("L0", "v0")), 9))
  if ((*$0).indent_level < n("L1") + 1)
  loop L0 @9 | v0 from (*$0).output
  loop L1 @10 | v0 from cat(<lv("L0", "v0"), %1>)
  do call "str::ends_with"(rv(lv("L0", "v0")), 32)
  do call "str::ends_with"(rv(lv("L0", "v0")), 9)
  do %1
  set $0 := %2
  ret tup{}
case
  if ((*$1) is Line)
  if true($2)
  if not true((*$0).config.trim_trailing_whitespace)
  if not (n("L0") < (*$0).indent_level)
  loop L0 @11 | v0 from cat(<(*$0).output, %1>)
  do %1
  set $0 := %3
  ret tup{}
case
  if ((*$1) is Line)
  if not true($2)
  set $0 := %4
  ret tup{}
case
  if ((*$1) is Indent)
  do %5
  set $0 := (post(0, %5) with {indent_level: (post(0, %5).indent_level - 1)})
  ret tup{}
case
  if ((*$1) is Group)
  do %6
  do %7
  set $0 := post(0, %7)
  ret %7
case
  if ((*$1) is Concat)
  if not (n("L0") < len((*$1)@Concat.0))
  loop L0 | v0 from (*$0)
  set $0 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1)@Concat.0))
  loop L0 | v0 from (*$0)
  do %8
  then v0 := post(0, %8)
case
  if ((*$1) is Text)
  set $0 := ((*$0) with {column: ((*$0).column + len((*$1)@Text.0)), output: cat(<(*$0).output, (*$1)@Text.0>)})
  ret tup{}

fn oak_pretty_print::document::printer::Printer::will_break  [private]
  takes &oak_pretty_print::document::printer::Printer; &oak_pretty_print::document::Document<>
  given oak_pretty_print::document::printer::Printer::check_width
  let %1 = call "oak_pretty_print::document::printer::Printer::check_width"($0, $1, rv((*$0).column))
case
  do %1
  ret %1

fn oak_pretty_print::document::printer::Printer::write_indent  [private]
  takes &mut oak_pretty_print::document::printer::Printer
case
  if not (n("L0") < (*$0).indent_level)
  loop L0 | v0 from (*$0).output
  set $0 := ((*$0) with {output: lv("L0", "v0")})
  ret tup{}
pass L0
  if (n("L0") < (*$0).indent_level)
  loop L0 | v0 from (*$0).output
  then v0 := cat(<lv("L0", "v0"), (*$0).config.indent_text>)

fn oak_pretty_print::indent
case
  ret new "oak_pretty_print::document::Document" Indent{0: box($0)}

fn oak_pretty_print::join
  given oak_pretty_print::document::Document::join
case
  do call "oak_pretty_print::document::Document::join"($0, $1)
  ret call "oak_pretty_print::document::Document::join"($0, $1)
