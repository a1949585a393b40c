fn <oak_repl::ReplError as core::convert::From<&str>>::from
case
  ret new "oak_repl::ReplError" Other{0: (*$0)}

fn <oak_repl::ReplError as core::convert::From<alloc::string::String>>::from
case
  ret new "oak_repl::ReplError" Other{0: $0}

fn <oak_repl::ReplError as core::convert::From<core::io::error::Error>>::from
case
  ret new "oak_repl::ReplError" Io{0: $0}

fn <oak_repl::ReplError as core::fmt::Display>::fmt
case
  if ((*$0) is Other)
  set $1 := cat(<(*$1), (*$0)@Other.0>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not ((*$0) is Other)
  set $1 := cat(<(*$1), "IO error: ", display('d', (*$0)@Io.0)>)
  ret new "core::result::Result" Ok{0: tup{}}

fn oak_repl::LineBuffer::backspace
  let %1 = call "alloc::vec::Vec::remove"(rv((*$0).lines), (*$0).current_line)
  let %2 = ((*$0).cursor_pos < len(call "str::chars"((*$0).lines[(*$0).current_line])) + 1)
  let %3 = call "alloc::string::String::remove"(rv((*$0).lines[(*$0).current_line]), sum(j0, 0, ((*$0).cursor_pos - 1), call "char::len_utf8"(call "str::chars"((*$0).lines[(*$0).current_line])[?j0])))
  let %4 = call "alloc::string::String::remove"(rv((*$0).lines[(*$0).current_line]), len((*$0).lines[(*$0).current_line]))
case
  if ((*$0).cursor_pos < 1)
  if ((*$0).current_line < 1)
  ret 0
case
  if ((*$0).cursor_pos < 1)
  if not ((*$0).current_line < 1)
  if ((*$0).current_line < len(post(0, %1)) + 1)
  do %1
  set $0 := ((*$0) with {current_line: ((*$0).current_line - 1), cursor_pos: len(call "str::chars"(post(0, %1)[((*$0).current_line - 1)])), lines: iset(post(0, %1), ((*$0).current_line - 1), cat(<post(0, %1)[((*$0).current_line - 1)], %1>))})
  ret 1
case
  if not ((*$0).cursor_pos < 1)
  if ((*$0).current_line < len((*$0).lines))
  if %2
  do %3
  set $0 := ((*$0) with {cursor_pos: ((*$0).cursor_pos - 1), lines: iset((*$0).lines, (*$0).current_line, post(0, %3))})
  ret 1
case
  if not ((*$0).cursor_pos < 1)
  if ((*$0).current_line < len((*$0).lines))
  if not %2
  do %4
  set $0 := ((*$0) with {cursor_pos: ((*$0).cursor_pos - 1), lines: iset((*$0).lines, (*$0).current_line, post(0, %4))})
  ret 1

fn oak_repl::LineBuffer::byte_pos  [private]
  takes &oak_repl::LineBuffer
  let %1 = ((*$0).cursor_pos < len(call "str::chars"((*$0).lines[(*$0).current_line])))
case
  if ((*$0).current_line < len((*$0).lines))
  if %1
  ret sum(j0, 0, (*$0).cursor_pos, call "char::len_utf8"(call "str::chars"((*$0).lines[(*$0).current_line])[?j0]))
case
  if ((*$0).current_line < len((*$0).lines))
  if not %1
  ret len((*$0).lines[(*$0).current_line])

fn oak_repl::LineBuffer::clear
case
  set $0 := ((*$0) with {current_line: 0, cursor_pos: 0, lines: vpush(vnew(), "")})
  ret tup{}

fn oak_repl::LineBuffer::full_text
case
  do call "[T]::join"(rv((*$0).lines), "\n")
  ret call "[T]::join"(rv((*$0).lines), "\n")

fn oak_repl::LineBuffer::insert
  let %1 = ((*$0).cursor_pos < len(call "str::chars"((*$0).lines[(*$0).current_line])))
  let %2 = call "alloc::string::String::insert"(rv((*$0).lines[(*$0).current_line]), sum(j0, 0, (*$0).cursor_pos, call "char::len_utf8"(call "str::chars"((*$0).lines[(*$0).current_line])[?j0])), $1)
  let %3 = call "alloc::string::String::insert"(rv((*$0).lines[(*$0).current_line]), len((*$0).lines[(*$0).current_line]), $1)
case
  if ((*$0).current_line < len((*$0).lines))
  if %1
  do %2
  set $0 := ((*$0) with {cursor_pos: ((*$0).cursor_pos + 1), lines: iset((*$0).lines, (*$0).current_line, post(0, %2))})
  ret tup{}
case
  if ((*$0).current_line < len((*$0).lines))
  if not %1
  do %3
  set $0 := ((*$0) with {cursor_pos: ((*$0).cursor_pos + 1), lines: iset((*$0).lines, (*$0).current_line, post(0, %3))})
  ret tup{}

fn oak_repl::LineBuffer::is_empty
case
  if (len((*$0).lines) == 1)
  ret (len((*$0).lines[0]) == 0)
case
  if not (len((*$0).lines) == 1)
  ret 0

fn oak_repl::LineBuffer::new
case
  ret new "oak_repl::LineBuffer"{lines: vpush(vnew(), ""), current_line: 0, cursor_pos: 0}

fn oak_repl::OakRepl::new
case
  ret new "oak_repl::OakRepl"{handler: $0}

fn oak_repl::OakRepl::run
  let %1 = call "<T as crossterm::command::QueueableCommand>::queue"(call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))), new "crossterm::cursor::MoveToColumn"{0: 0})
  let %2 = call "core::io::write::Write::by_ref"(rv(post(0, call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))))
  let %3 = call "core::io::write::Write::by_ref"(rv(post(0, call "<std::io::stdio::Stdout as core::io::write::Write>::write_fmt"(rv(post(0, %2)), new "fmtargs"{text: cat(<call "oak_repl::ReplHandler::prompt"(rv((*$0).handler), 0), call "<oak_highlight::exporters::AnsiExporter as oak_highlight::exporters::Exporter>::export"(rv(new "oak_highlight::exporters::AnsiExporter"{}), rv(call "oak_repl::ReplHandler::highlight"(rv((*$0).handler), rv(""))@Some.0))>)}))))
  let %4 = call "core::io::write::Write::by_ref"(rv(post(0, call "<std::io::stdio::Stdout as core::io::write::Write>::write_fmt"(rv(post(0, %2)), new "fmtargs"{text: call "oak_repl::ReplHandler::prompt"(rv((*$0).handler), 0)}))))
  let %5 = call "<T as crossterm::command::QueueableCommand>::queue"(call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())), new "crossterm::cursor::MoveToColumn"{0: 0})@Ok.0
  let %6 = call "<T as crossterm::command::QueueableCommand>::queue"(%1@Ok.0, new "crossterm::terminal::Clear"{0: new "crossterm::terminal::ClearType"{}})
  let %7 = call "core::io::write::Write::by_ref"(rv(post(0, call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))))))
  let %8 = call "<std::io::stdio::Stdout as core::io::write::Write>::flush"(%7)
  let %9 = call "oak_repl::ReplHandler::highlight"(rv(lv("L0", "v3")), rv(lv("L0", "v7")[lv("L0", "v1")]))
  let %10 = call "<oak_highlight::exporters::AnsiExporter as oak_highlight::exporters::Exporter>::export"(rv(new "oak_highlight::exporters::AnsiExporter"{}), rv(%9@Some.0))
  let %11 = call "<std::io::stdio::Stdout as core::io::write::Write>::write_fmt"(rv(post(0, %7)), new "fmtargs"{text: cat(<call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0")), %10>)})
  let %12 = new "crossterm::cursor::MoveToColumn"{0: trunc('u16', (len(call "str::chars"(call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0")))) + lv("L0", "v2")))}
  let %13 = call "<T as crossterm::command::QueueableCommand>::queue"(call "core::io::write::Write::by_ref"(rv(post(0, %11))), %12)
  let %14 = call "core::io::write::Write::by_ref"(rv(post(0, call "core::io::write::Write::by_ref"(rv(post(0, %11))))))
  let %15 = call "<std::io::stdio::Stdout as core::io::write::Write>::flush"(%14)
  let %16 = call "<std::io::stdio::Stdout as core::io::write::Write>::flush"(rv(post(0, %14)))
  let %17 = (call "discriminant"(call "crossterm::event::read"()@Ok.0) == 2)
  let %18 = call "discriminant"(call "crossterm::event::read"()@Ok.0@Key.0.code)
  let %19 = (lv("L0", "v2") < len(call "str::chars"(lv("L0", "v7")[lv("L0", "v1")])) + 1)
  let %20 = call "alloc::string::String::remove"(rv(lv("L0", "v7")[lv("L0", "v1")]), len(lv("L0", "v7")[lv("L0", "v1")]))
  let %21 = call "char::len_utf8"(call "str::chars"(lv("L0", "v7")[lv("L0", "v1")])[?j0])
  let %22 = call "alloc::string::String::remove"(rv(lv("L0", "v7")[lv("L0", "v1")]), sum(j0, 0, (lv("L0", "v2") - 1), %21))
  let %23 = post(0, call "alloc::vec::Vec::remove"(rv(lv("L0", "v7")), lv("L0", "v1")))
  let %24 = iset(%23, (lv("L0", "v1") - 1), cat(<%23[(lv("L0", "v1") - 1)], call "alloc::vec::Vec::remove"(rv(lv("L0", "v7")), lv("L0", "v1"))>))
  let %25 = (call "crossterm::event::read"()@Ok.0@Key.0.code@Char.0 == 99)
  let %26 = call "crossterm::event::KeyModifiers::contains"(rv(call "crossterm::event::read"()@Ok.0@Key.0.modifiers), const('crossterm::event::KeyModifiers::CONTROL', <>))
  let %27 = (lv("L0", "v2") < len(call "str::chars"(lv("L0", "v7")[lv("L0", "v1")])))
  let %28 = call "alloc::string::String::insert"(rv(lv("L0", "v7")[lv("L0", "v1")]), sum(j0, 0, lv("L0", "v2"), %21), call "crossterm::event::read"()@Ok.0@Key.0.code@Char.0)
  let %29 = call "alloc::string::String::insert"(rv(lv("L0", "v7")[lv("L0", "v1")]), len(lv("L0", "v7")[lv("L0", "v1")]), call "crossterm::event::read"()@Ok.0@Key.0.code@Char.0)
  let %30 = (call "crossterm::event::read"()@Ok.0@Key.0.code@Char.0 == 100)
  let %31 = call "oak_repl::ReplHandler::is_complete"(rv(lv("L0", "v3")), rv(call "[T]::join"(rv(lv("L0", "v7")), "\n")))
  let %32 = call "oak_repl::ReplHandler::handle_line"(rv(lv("L0", "v3")), rv(call "[T]::join"(rv(lv("L0", "v7")), "\n")))
  let %33 = call "std::io::stdio::_eprint"(new "fmtargs"{text: cat(<"Error: ", display('d', %32@Err.0), "\n">)})
  let %34 = call "oak_repl::ReplHandler::get_indent"(rv(lv("L0", "v3")), rv(call "[T]::join"(rv(lv("L0", "v7")), "\n")))
  let %35 = (n("L1") < len(call "str::chars"(lv("L1", "v0")[(lv("L0", "v1") + 1)])))
  let %36 = call "alloc::string::String::insert"(rv(lv("L1", "v0")[(lv("L0", "v1") + 1)]), sum(j0, 0, n("L1"), call "char::len_utf8"(call "str::chars"(lv("L1", "v0")[(lv("L0", "v1") + 1)])[?j0])), 32)
  let %37 = call "alloc::string::String::insert"(rv(lv("L1", "v0")[(lv("L0", "v1") + 1)]), len(lv("L1", "v0")[(lv("L0", "v1") + 1)]), 32)
  let %38 = call "<std::io::stdio::Stdout as core::io::write::Write>::write_fmt"(rv(post(0, %7)), new "fmtargs"{text: cat(<call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0")), lv("L0", "v7")[lv("L0", "v1")]>)})
  let %39 = call "<T as crossterm::command::QueueableCommand>::queue"(call "core::io::write::Write::by_ref"(rv(post(0, %38))), %12)
  let %40 = call "core::io::write::Write::by_ref"(rv(post(0, call "core::io::write::Write::by_ref"(rv(post(0, %38))))))
  let %41 = call "<std::io::stdio::Stdout as core::io::write::Write>::flush"(%40)
  let %42 = call "<std::io::stdio::Stdout as core::io::write::Write>::flush"(rv(post(0, %40)))
case
  if (call "crossterm::terminal::enable_raw_mode"() is Err)
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  ret new "core::result::Result" Err{0: call "crossterm::terminal::enable_raw_mode"()@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if (%1 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %1@Err.0}
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if (%18 == 0)
  if (lv("L0", "v2") < 1)
  if (lv("L0", "v1") < 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if (%18 == 0)
  if not (lv("L0", "v2") < 1)
  if not %19
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %20
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") - 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %20))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if (%18 == 0)
  if not (lv("L0", "v2") < 1)
  if %19
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %22
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") - 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %22))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if (%18 == 0)
  if (lv("L0", "v2") < 1)
  if not (lv("L0", "v1") < 1)
  if (lv("L0", "v1") < len(%23) + 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do call "alloc::vec::Vec::remove"(rv(lv("L0", "v7")), lv("L0", "v1"))
  then v0 := lv("L0", "v0")
  then v1 := (lv("L0", "v1") - 1)
  then v2 := len(call "str::chars"(%23[(lv("L0", "v1") - 1)]))
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := %24
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if not (%18 == 15)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if %25
  if true(%26)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\nInterrupted\n"})
  then v0 := 0
  then v1 := 0
  then v2 := 0
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := vpush(vnew(), "")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if %25
  if not true(%26)
  if %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  do %28
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %28))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if %25
  if not true(%26)
  if not %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  do %29
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %29))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if not %30
  if %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %28
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %28))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if not %30
  if not %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %29
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %29))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if true(%26)
  if (len(lv("L0", "v7")) == 1)
  if not (len(lv("L0", "v7")[0]) == 0)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if true(%26)
  if not (len(lv("L0", "v7")) == 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if not true(%26)
  if %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  do %28
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %28))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if not true(%26)
  if not %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  do %29
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %29))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if (%18 == 3)
  if %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if (%18 == 3)
  if not %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if (%18 == 2)
  if (lv("L0", "v2") < 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if (%18 == 2)
  if not (lv("L0", "v2") < 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") - 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if true(%31)
  if not (call "crossterm::terminal::disable_raw_mode"() is Err)
  if (%32 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "crossterm::terminal::disable_raw_mode"()
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\n"})
  do %32
  do %33
  do call "crossterm::terminal::enable_raw_mode"()
  then v0 := 0
  then v1 := 0
  then v2 := 0
  then v3 := post(0, %32)
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := vpush(vnew(), "")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if true(%31)
  if not (call "crossterm::terminal::disable_raw_mode"() is Err)
  if not (%32 is Err)
  if not (%32@Ok.0 is Exit)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "crossterm::terminal::disable_raw_mode"()
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\n"})
  do %32
  do call "crossterm::terminal::enable_raw_mode"()
  then v0 := 0
  then v1 := 0
  then v2 := 0
  then v3 := post(0, %32)
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := vpush(vnew(), "")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if not true(%31)
  if (%34 < n("L1") + 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  loop L1 @0 | v0 from vpush(lv("L0", "v7"), "")
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\n"})
  do %34
  then v0 := 1
  then v1 := (lv("L0", "v1") + 1)
  then v2 := %34
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L1", "v0")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L1
  if not (%34 < n("L1") + 1)
  if (lv("L0", "v1") + 1 < len(lv("L1", "v0")))
  if %35
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  loop L1 | v0 from vpush(lv("L0", "v7"), "")
  do %36
  then v0 := iset(lv("L1", "v0"), (lv("L0", "v1") + 1), post(0, %36))
pass L1
  if not (%34 < n("L1") + 1)
  if (lv("L0", "v1") + 1 < len(lv("L1", "v0")))
  if not %35
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  loop L1 | v0 from vpush(lv("L0", "v7"), "")
  do %37
  then v0 := iset(lv("L1", "v0"), (lv("L0", "v1") + 1), post(0, %37))
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if not %17
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %16)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if (%18 == 0)
  if (lv("L0", "v2") < 1)
  if (lv("L0", "v1") < 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if (%18 == 0)
  if not (lv("L0", "v2") < 1)
  if not %19
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %20
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") - 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %20))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if (%18 == 0)
  if not (lv("L0", "v2") < 1)
  if %19
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %22
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") - 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %22))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if (%18 == 0)
  if (lv("L0", "v2") < 1)
  if not (lv("L0", "v1") < 1)
  if (lv("L0", "v1") < len(%23) + 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do call "alloc::vec::Vec::remove"(rv(lv("L0", "v7")), lv("L0", "v1"))
  then v0 := lv("L0", "v0")
  then v1 := (lv("L0", "v1") - 1)
  then v2 := len(call "str::chars"(%23[(lv("L0", "v1") - 1)]))
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := %24
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if not (%18 == 15)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if %25
  if true(%26)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\nInterrupted\n"})
  then v0 := 0
  then v1 := 0
  then v2 := 0
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := vpush(vnew(), "")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if %25
  if not true(%26)
  if %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  do %28
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %28))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if %25
  if not true(%26)
  if not %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  do %29
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %29))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if not %30
  if %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %28
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %28))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if not %30
  if not %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %29
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %29))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if true(%26)
  if (len(lv("L0", "v7")) == 1)
  if not (len(lv("L0", "v7")[0]) == 0)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if true(%26)
  if not (len(lv("L0", "v7")) == 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if not true(%26)
  if %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  do %28
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %28))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if not true(%26)
  if not %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  do %29
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := iset(lv("L0", "v7"), lv("L0", "v1"), post(0, %29))
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if (%18 == 3)
  if %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") + 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if (%18 == 3)
  if not %27
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if (%18 == 2)
  if (lv("L0", "v2") < 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if (%18 == 2)
  if not (lv("L0", "v2") < 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := (lv("L0", "v2") - 1)
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if true(%31)
  if not (call "crossterm::terminal::disable_raw_mode"() is Err)
  if (%32 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "crossterm::terminal::disable_raw_mode"()
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\n"})
  do %32
  do %33
  do call "crossterm::terminal::enable_raw_mode"()
  then v0 := 0
  then v1 := 0
  then v2 := 0
  then v3 := post(0, %32)
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := vpush(vnew(), "")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if true(%31)
  if not (call "crossterm::terminal::disable_raw_mode"() is Err)
  if not (%32 is Err)
  if not (%32@Ok.0 is Exit)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "crossterm::terminal::disable_raw_mode"()
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\n"})
  do %32
  do call "crossterm::terminal::enable_raw_mode"()
  then v0 := 0
  then v1 := 0
  then v2 := 0
  then v3 := post(0, %32)
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := vpush(vnew(), "")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if not true(%31)
  if (%34 < n("L1") + 1)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  loop L1 @1 | v0 from vpush(lv("L0", "v7"), "")
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\n"})
  do %34
  then v0 := 1
  then v1 := (lv("L0", "v1") + 1)
  then v2 := %34
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L1", "v0")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
pass L0
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if not %17
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
  then v4 := lv("L0", "v4")
  then v5 := lv("L0", "v5")
  then v6 := lv("L0", "v6")
  then v7 := lv("L0", "v7")
  then v8 := lv("L0", "v8")
  then v9 := lv("L0", "v9")
  then v10 := post(0, %42)
  then v11 := lv("L0", "v11")
  then v12 := lv("L0", "v12")
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if (%6 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %6@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if (%8 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %8@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if (%11 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %11@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if (%13 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %11))) := post(0, %13)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %13@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if (%15 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %14 := post(0, %15)
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %11))) := post(0, %13)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %15@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if (%16 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %14 := post(0, %15)
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %11))) := post(0, %13)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %16@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if (call "crossterm::event::read"() is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %14 := post(0, %15)
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %11))) := post(0, %13)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: call "crossterm::event::read"()@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if true(%26)
  if (len(lv("L0", "v7")) == 1)
  if (len(lv("L0", "v7")[0]) == 0)
  if (call "crossterm::terminal::disable_raw_mode"() is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\nEOF\n"})
  do call "crossterm::terminal::disable_raw_mode"()
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %14 := post(0, %15)
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %11))) := post(0, %13)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: call "crossterm::terminal::disable_raw_mode"()@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if true(%26)
  if (len(lv("L0", "v7")) == 1)
  if (len(lv("L0", "v7")[0]) == 0)
  if not (call "crossterm::terminal::disable_raw_mode"() is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do %26
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\nEOF\n"})
  do call "crossterm::terminal::disable_raw_mode"()
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %14 := post(0, %15)
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %11))) := post(0, %13)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if true(%31)
  if (call "crossterm::terminal::disable_raw_mode"() is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "crossterm::terminal::disable_raw_mode"()
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %14 := post(0, %15)
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %11))) := post(0, %13)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: call "crossterm::terminal::disable_raw_mode"()@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if (%9 is Some)
  if not (%11 is Err)
  if not (%13 is Err)
  if not (%15 is Err)
  if not (%16 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if true(%31)
  if not (call "crossterm::terminal::disable_raw_mode"() is Err)
  if not (%32 is Err)
  if (%32@Ok.0 is Exit)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %10
  do %11
  do call "core::io::write::Write::by_ref"(rv(post(0, %11)))
  do %13
  do %14
  do %15
  do %16
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "crossterm::terminal::disable_raw_mode"()
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\n"})
  do %32
  do call "crossterm::terminal::disable_raw_mode"()
  set $0 := ((*$0) with {handler: post(0, %32)})
  set %14 := post(0, %15)
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %11))) := post(0, %13)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if (%38 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %38@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if (%39 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %38))) := post(0, %39)
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %39@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if (%41 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %40 := post(0, %41)
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %38))) := post(0, %39)
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %41@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if (%42 is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %40 := post(0, %41)
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %38))) := post(0, %39)
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: %42@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if (call "crossterm::event::read"() is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %40 := post(0, %41)
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %38))) := post(0, %39)
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: call "crossterm::event::read"()@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if true(%26)
  if (len(lv("L0", "v7")) == 1)
  if (len(lv("L0", "v7")[0]) == 0)
  if (call "crossterm::terminal::disable_raw_mode"() is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\nEOF\n"})
  do call "crossterm::terminal::disable_raw_mode"()
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %40 := post(0, %41)
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %38))) := post(0, %39)
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: call "crossterm::terminal::disable_raw_mode"()@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if not (%18 == 1)
  if not (%18 == 2)
  if not (%18 == 3)
  if (%18 == 15)
  if not %25
  if %30
  if true(%26)
  if (len(lv("L0", "v7")) == 1)
  if (len(lv("L0", "v7")[0]) == 0)
  if not (call "crossterm::terminal::disable_raw_mode"() is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do %26
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\nEOF\n"})
  do call "crossterm::terminal::disable_raw_mode"()
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %40 := post(0, %41)
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %38))) := post(0, %39)
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if true(%31)
  if (call "crossterm::terminal::disable_raw_mode"() is Err)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "crossterm::terminal::disable_raw_mode"()
  set $0 := ((*$0) with {handler: lv("L0", "v3")})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %40 := post(0, %41)
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %38))) := post(0, %39)
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Err{0: call "crossterm::terminal::disable_raw_mode"()@Err.0}
case
  if not (call "crossterm::terminal::enable_raw_mode"() is Err)
  if not (%1 is Err)
  if not (%6 is Err)
  if not (%8 is Err)
  if not (len(lv("L0", "v7")) < lv("L0", "v1") + 1)
  if not (%9 is Some)
  if not (%38 is Err)
  if not (%39 is Err)
  if not (%41 is Err)
  if not (%42 is Err)
  if not (call "crossterm::event::read"() is Err)
  if %17
  if not (%18 == 0)
  if (%18 == 1)
  if true(%31)
  if not (call "crossterm::terminal::disable_raw_mode"() is Err)
  if not (%32 is Err)
  if (%32@Ok.0 is Exit)
  loop L0 | v0 from 0 | v1 from 0 | v2 from 0 | v3 from (*$0).handler | v4 from (*%3) | v5 from (*%2) | v6 from (*%4) | v7 from vpush(vnew(), "") | v8 from (*call "core::io::write::Write::by_ref"(rv(post(0, %4)))) | v9 from (*%5) | v10 from call "std::io::stdio::stdout"() | v11 from (*call "core::io::write::Write::by_ref"(rv(post(0, %3)))) | v12 from (*call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())))
  do call "std::io::stdio::stdout"()
  do call "oak_highlight::highlighter::OakHighlighter::new"()
  do call "crossterm::terminal::enable_raw_mode"()
  do call "core::io::write::Write::by_ref"(rv(lv("L0", "v10")))
  do %1
  do %6
  do %7
  do %8
  do call "oak_repl::ReplHandler::prompt"(rv(lv("L0", "v3")), lv("L0", "v0"))
  do %9
  do %38
  do call "core::io::write::Write::by_ref"(rv(post(0, %38)))
  do %39
  do %40
  do %41
  do %42
  do call "crossterm::event::read"()
  do call "[T]::join"(rv(lv("L0", "v7")), "\n")
  do %31
  do call "crossterm::terminal::disable_raw_mode"()
  do call "std::io::stdio::_print"(new "fmtargs"{text: "\n"})
  do %32
  do call "crossterm::terminal::disable_raw_mode"()
  set $0 := ((*$0) with {handler: post(0, %32)})
  set %1@Ok.0 := post(0, %6)
  set %2 := lv("L0", "v5")
  set %3 := lv("L0", "v4")
  set %4 := lv("L0", "v6")
  set %40 := post(0, %41)
  set %5 := lv("L0", "v9")
  set %7 := post(0, %8)
  set call "core::io::write::Write::by_ref"(rv(call "std::io::stdio::stdout"())) := lv("L0", "v12")
  set call "core::io::write::Write::by_ref"(rv(lv("L0", "v10"))) := post(0, %1)
  set call "core::io::write::Write::by_ref"(rv(post(0, %3))) := lv("L0", "v11")
  set call "core::io::write::Write::by_ref"(rv(post(0, %38))) := post(0, %39)
  set call "core::io::write::Write::by_ref"(rv(post(0, %4))) := lv("L0", "v8")
  ret new "core::result::Result" Ok{0: tup{}}

fn oak_repl::ReplHandler::get_indent
case
  ret 0

fn oak_repl::ReplHandler::highlight
case
  ret new "core::option::Option" None{}
