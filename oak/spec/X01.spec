fn oak_core::lexer::LexerState::add_eof
case
  set $0 := ((*$0) with {tokens: vpush((*$0).tokens, new "oak_core::lexer::Token"{kind: const('oak_core::language::TokenType::END_OF_STREAM', <'<L as oak_core::language::Language>::TokenType'>), span: new "range"{start: (*$0).cursor.offset, end: (*$0).cursor.offset}})})
  ret tup{}

fn oak_core::lexer::LexerState::add_error
case
  set $0 := ((*$0) with {errors: vpush((*$0).errors, call "into"("oak_core::errors::OakError", $1))})
  ret tup{}

fn oak_core::lexer::LexerState::add_token
case
  set $0 := ((*$0) with {tokens: vpush((*$0).tokens, new "oak_core::lexer::Token"{kind: $1, span: new "range"{start: $2, end: $3}})})
  ret tup{}

fn oak_core::lexer::LexerState::advance
  given oak_core::source::cursor::SourceCursor::advance_bytes
  let %1 = call "oak_core::source::cursor::SourceCursor::advance_bytes"(rv((*$0).cursor), $1)
case
  do %1
  set $0 := ((*$0) with {cursor: post(0, %1)})
  ret tup{}

fn oak_core::lexer::LexerState::advance_byte
  given oak_core::source::cursor::SourceCursor::advance_byte
  let %1 = call "oak_core::source::cursor::SourceCursor::advance_byte"(rv((*$0).cursor))
case
  do %1
  set $0 := ((*$0) with {cursor: post(0, %1)})
  ret %1

fn oak_core::lexer::LexerState::advance_if_dead_lock
  given oak_core::lexer::LexerState::advance
  given oak_core::lexer::LexerState::current
  given oak_core::source::cursor::SourceCursor::position
  let %1 = call "oak_core::source::cursor::SourceCursor::position"(rv((*$0).cursor))
  let %2 = call "char::len_utf8"(call "oak_core::lexer::LexerState::current"($0)@Some.0)
case
  if ($1 == %1)
  if (call "oak_core::lexer::LexerState::current"($0) is Some)
  do %1
  do call "oak_core::lexer::LexerState::current"($0)
  do %2
  do call "oak_core::lexer::LexerState::advance"($0, %2)
  set $0 := post(0, call "oak_core::lexer::LexerState::advance"($0, %2))
  ret call "oak_core::lexer::LexerState::advance"($0, %2)
case
  if ($1 == %1)
  if not (call "oak_core::lexer::LexerState::current"($0) is Some)
  do %1
  do call "oak_core::lexer::LexerState::current"($0)
  do call "oak_core::lexer::LexerState::advance"($0, 1)
  set $0 := post(0, call "oak_core::lexer::LexerState::advance"($0, 1))
  ret call "oak_core::lexer::LexerState::advance"($0, 1)
case
  if not ($1 == %1)
  do %1
  ret tup{}

fn oak_core::lexer::LexerState::advance_with
  given oak_core::lexer::Token::length
  given oak_core::source::cursor::SourceCursor::advance_bytes
  given oak_core::source::cursor::SourceCursor::position
  let %1 = call "oak_core::source::cursor::SourceCursor::advance_bytes"(rv((*$0).cursor), call "oak_core::lexer::Token::length"(rv($1)))
  let %2 = call "oak_core::source::cursor::SourceCursor::position"(rv(post(0, %1)))
case
  do call "oak_core::lexer::Token::length"(rv($1))
  do %1
  do %2
  set $0 := ((*$0) with {cursor: post(0, %1), tokens: vpush((*$0).tokens, $1)})
  ret %2

fn oak_core::lexer::LexerState::bump
  given oak_core::lexer::LexerState::advance
  given oak_core::lexer::LexerState::peek
  let %1 = call "char::len_utf8"(call "oak_core::lexer::LexerState::peek"($0)@Some.0)
case
  if (call "oak_core::lexer::LexerState::peek"($0) is Some)
  do call "oak_core::lexer::LexerState::peek"($0)
  do %1
  do call "oak_core::lexer::LexerState::advance"($0, %1)
  set $0 := post(0, call "oak_core::lexer::LexerState::advance"($0, %1))
  ret new "core::option::Option" Some{0: call "oak_core::lexer::LexerState::peek"($0)@Some.0}
case
  if not (call "oak_core::lexer::LexerState::peek"($0) is Some)
  do call "oak_core::lexer::LexerState::peek"($0)
  ret new "core::option::Option" None{}

fn oak_core::lexer::LexerState::consume_if_starts_with
  given oak_core::source::cursor::SourceCursor::consume_if_starts_with
  let %1 = call "oak_core::source::cursor::SourceCursor::consume_if_starts_with"(rv((*$0).cursor), $1)
case
  do %1
  set $0 := ((*$0) with {cursor: post(0, %1)})
  ret %1

fn oak_core::lexer::LexerState::current
  given oak_core::source::cursor::SourceCursor::peek_char
  let %1 = call "oak_core::source::cursor::SourceCursor::peek_char"(rv((*$0).cursor))
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::finish
case
  if ($1 is Err)
  ret new "oak_core::errors::OakDiagnostics"{result: new "core::result::Result" Err{0: $1@Err.0}, diagnostics: $0.errors}
case
  if not ($1 is Err)
  ret new "oak_core::errors::OakDiagnostics"{result: new "core::result::Result" Ok{0: $0.tokens}, diagnostics: $0.errors}

fn oak_core::lexer::LexerState::get_char_at
  let %1 = call "oak_core::source::Source::get_char_at"((*$0).cursor.source, $1)
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::get_length
case
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  ret call "oak_core::source::Source::length"((*$0).cursor.source)

fn oak_core::lexer::LexerState::get_position
case
  ret (*$0).cursor.offset

fn oak_core::lexer::LexerState::get_text_from
  let %1 = call "oak_core::source::Source::get_text_from"((*$0).cursor.source, $1)
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::get_text_in
  let %1 = call "oak_core::source::Source::get_text_in"((*$0).cursor.source, $1)
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::get_tokens
case
  ret rv((*$0).tokens)

fn oak_core::lexer::LexerState::new
  let %1 = call "oak_core::source::Source::chunk_at"($0, min(call "oak_core::source::Source::length"($0), 0))
case
  do call "oak_core::source::Source::length"($0)
  do %1
  ret new "oak_core::lexer::LexerState"{cursor: new "oak_core::source::cursor::SourceCursor"{source: $0, offset: min(call "oak_core::source::Source::length"($0), 0), chunk: %1, scratch: ""}, tokens: vnew(), errors: vnew()}

fn oak_core::lexer::LexerState::not_at_end
case
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  ret ((*$0).cursor.offset < call "oak_core::source::Source::length"((*$0).cursor.source))

fn oak_core::lexer::LexerState::peek
  given oak_core::source::cursor::SourceCursor::peek_char
  let %1 = call "oak_core::source::cursor::SourceCursor::peek_char"(rv((*$0).cursor))
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::peek_byte
  given oak_core::source::cursor::SourceCursor::peek_byte
  let %1 = call "oak_core::source::cursor::SourceCursor::peek_byte"(rv((*$0).cursor))
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::peek_next
  given oak_core::source::cursor::SourceCursor::peek_next_char
  let %1 = call "oak_core::source::cursor::SourceCursor::peek_next_char"(rv((*$0).cursor))
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::peek_next_n
  let %1 = ($1 + (*$0).cursor.offset < call "oak_core::source::Source::length"((*$0).cursor.source))
  let %2 = call "oak_core::source::Source::get_char_at"((*$0).cursor.source, ($1 + (*$0).cursor.offset))
  let %3 = ($1 + (*$0).cursor.offset < (*$0).cursor.chunk.start + len((*(*$0).cursor.chunk.text)))
  let %4 = true(validrange((*(*$0).cursor.chunk.text), ($1 - (*$0).cursor.chunk.start + (*$0).cursor.offset), len((*(*$0).cursor.chunk.text))))
  let %5 = call "str::chars"(slice((*(*$0).cursor.chunk.text), ($1 - (*$0).cursor.chunk.start + (*$0).cursor.offset), len((*(*$0).cursor.chunk.text))))
case
  if %1
  if ($1 + (*$0).cursor.offset < (*$0).cursor.chunk.start)
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  do %2
  ret %2
case
  if not %1
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  ret new "core::option::Option" None{}
case
  if %1
  if not ($1 + (*$0).cursor.offset < (*$0).cursor.chunk.start)
  if not %3
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  do %2
  ret %2
case
  if %1
  if not ($1 + (*$0).cursor.offset < (*$0).cursor.chunk.start)
  if %3
  if not %4
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  ret new "core::option::Option" Some{0: call "str::chars"("")[0]}
case
  if %1
  if not ($1 + (*$0).cursor.offset < (*$0).cursor.chunk.start)
  if %3
  if not %4
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  ret new "core::option::Option" None{}
case
  if %1
  if not ($1 + (*$0).cursor.offset < (*$0).cursor.chunk.start)
  if %3
  if %4
  if not (len(%5) < 1)
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  ret new "core::option::Option" Some{0: %5[0]}
case
  if %1
  if not ($1 + (*$0).cursor.offset < (*$0).cursor.chunk.start)
  if %3
  if %4
  if (len(%5) < 1)
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  ret new "core::option::Option" None{}

fn oak_core::lexer::LexerState::rest
  given oak_core::source::cursor::SourceCursor::rest
  let %1 = call "oak_core::source::cursor::SourceCursor::rest"(rv((*$0).cursor))
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::rest_bytes
  given oak_core::source::cursor::SourceCursor::rest
  let %1 = call "oak_core::source::cursor::SourceCursor::rest"(rv((*$0).cursor))
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::set_position
case
  do call "oak_core::source::Source::length"((*$0).cursor.source)
  set $0 := ((*$0) with {cursor: ((*$0).cursor with {offset: min($1, call "oak_core::source::Source::length"((*$0).cursor.source))})})
  ret (*$0).cursor.offset

fn oak_core::lexer::LexerState::skip_ascii_digits
  given oak_core::source::cursor::SourceCursor::skip_ascii_digits
  let %1 = call "oak_core::source::cursor::SourceCursor::skip_ascii_digits"(rv((*$0).cursor))
case
  do %1
  set $0 := ((*$0) with {cursor: post(0, %1)})
  ret %1

fn oak_core::lexer::LexerState::skip_ascii_ident_continue
  given oak_core::source::cursor::SourceCursor::skip_ascii_ident_continue
  let %1 = call "oak_core::source::cursor::SourceCursor::skip_ascii_ident_continue"(rv((*$0).cursor))
case
  do %1
  set $0 := ((*$0) with {cursor: post(0, %1)})
  ret %1

fn oak_core::lexer::LexerState::skip_ascii_whitespace
  given oak_core::source::cursor::SourceCursor::skip_ascii_whitespace
  let %1 = call "oak_core::source::cursor::SourceCursor::skip_ascii_whitespace"(rv((*$0).cursor))
case
  do %1
  set $0 := ((*$0) with {cursor: post(0, %1)})
  ret %1

fn oak_core::lexer::LexerState::skip_until
  given oak_core::source::cursor::SourceCursor::skip_until
  let %1 = call "oak_core::source::cursor::SourceCursor::skip_until"(rv((*$0).cursor), $1)
case
  do %1
  set $0 := ((*$0) with {cursor: post(0, %1)})
  ret %1

fn oak_core::lexer::LexerState::source
case
  ret (*$0).cursor.source

fn oak_core::lexer::LexerState::starts_with
  given oak_core::source::cursor::SourceCursor::starts_with
  let %1 = call "oak_core::source::cursor::SourceCursor::starts_with"(rv((*$0).cursor), $1)
case
  do %1
  ret %1

fn oak_core::lexer::LexerState::take_while
  given oak_core::lexer::LexerState::advance
  given oak_core::lexer::LexerState::peek
  given oak_core::source::cursor::SourceCursor::position
  let %1 = call "oak_core::lexer::LexerState::peek"(rv(lv("L0", "v1")))@Some.0
  let %2 = call "core::ops::function::FnMut::call_mut"(rv(lv("L0", "v0")), tup{0: %1})
  let %3 = call "oak_core::source::cursor::SourceCursor::position"(rv((*$0).cursor))
  let %4 = new "range"{start: %3, end: call "oak_core::source::cursor::SourceCursor::position"(rv(lv("L0", "v1").cursor))}
  let %5 = call "oak_core::lexer::LexerState::advance"(rv(lv("L0", "v1")), call "char::len_utf8"(%1))
case
  if (call "oak_core::lexer::LexerState::peek"(rv(lv("L0", "v1"))) is Some)
  if not true(%2)
  loop L0 | v0 from $1 | v1 from (*$0)
  do %3
  do call "oak_core::lexer::LexerState::peek"(rv(lv("L0", "v1")))
  do %2
  do call "oak_core::source::cursor::SourceCursor::position"(rv(lv("L0", "v1").cursor))
  set $0 := lv("L0", "v1")
  ret %4
pass L0
  if (call "oak_core::lexer::LexerState::peek"(rv(lv("L0", "v1"))) is Some)
  if true(%2)
  loop L0 | v0 from $1 | v1 from (*$0)
  do call "oak_core::lexer::LexerState::peek"(rv(lv("L0", "v1")))
  do %2
  do call "char::len_utf8"(%1)
  do %5
  then v0 := post(0, %2)
  then v1 := post(0, %5)
case
  if not (call "oak_core::lexer::LexerState::peek"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from $1 | v1 from (*$0)
  do %3
  do call "oak_core::lexer::LexerState::peek"(rv(lv("L0", "v1")))
  do call "oak_core::source::cursor::SourceCursor::position"(rv(lv("L0", "v1").cursor))
  set $0 := lv("L0", "v1")
  ret %4

fn oak_core::lexer::LexerState::take_while_byte
  given oak_core::source::cursor::SourceCursor::take_while_byte
  let %1 = call "oak_core::source::cursor::SourceCursor::take_while_byte"(rv((*$0).cursor), $1)
case
  do %1
  set $0 := ((*$0) with {cursor: post(0, %1)})
  ret %1

fn oak_core::lexer::LexerState::tokens
case
  ret rv((*$0).tokens)

fn oak_core::lexer::Token::length
case
  ret ((*$0).span.end - (*$0).span.start)
