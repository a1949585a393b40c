fn oak_core::lexer::LexerState::scan_ascii_identifier
  given oak_core::lexer::LexerState::add_token
  given oak_core::lexer::LexerState::advance_byte
  given oak_core::lexer::LexerState::get_position
  given oak_core::lexer::LexerState::peek_byte
  given oak_core::lexer::LexerState::skip_ascii_ident_continue
  let %1 = (call "oak_core::lexer::LexerState::peek_byte"($0)@Some.0 == 95)
  let %2 = call "oak_core::lexer::LexerState::skip_ascii_ident_continue"(rv(post(0, call "oak_core::lexer::LexerState::advance_byte"($0))))
  let %3 = call "oak_core::lexer::LexerState::get_position"(rv(post(0, %2)))
  let %4 = call "oak_core::lexer::LexerState::add_token"(rv(post(0, %2)), $1, call "oak_core::lexer::LexerState::get_position"($0), %3)
  let %5 = call "u8::is_ascii_alphabetic"(rv(call "oak_core::lexer::LexerState::peek_byte"($0)@Some.0))
case
  if (call "oak_core::lexer::LexerState::peek_byte"($0) is Some)
  if %1
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::peek_byte"($0)
  do call "oak_core::lexer::LexerState::advance_byte"($0)
  do %2
  do %3
  do %4
  set $0 := post(0, %4)
  ret 1
case
  if (call "oak_core::lexer::LexerState::peek_byte"($0) is Some)
  if not %1
  if true(%5)
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::peek_byte"($0)
  do %5
  do call "oak_core::lexer::LexerState::advance_byte"($0)
  do %2
  do %3
  do %4
  set $0 := post(0, %4)
  ret 1
case
  if (call "oak_core::lexer::LexerState::peek_byte"($0) is Some)
  if not %1
  if not true(%5)
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::peek_byte"($0)
  do %5
  ret 0
case
  if not (call "oak_core::lexer::LexerState::peek_byte"($0) is Some)
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::peek_byte"($0)
  ret 0

fn oak_core::lexer::LexerState::scan_block_comment
  given oak_core::lexer::LexerState::add_token
  given oak_core::lexer::LexerState::advance_byte
  given oak_core::lexer::LexerState::consume_if_starts_with
  given oak_core::lexer::LexerState::get_position
  given oak_core::lexer::LexerState::peek_byte
  given oak_core::lexer::LexerState::skip_until
  let %1 = call "oak_core::lexer::LexerState::skip_until"(rv(lv("L0", "v0")), (*$3)[0])
  let %2 = call "oak_core::lexer::LexerState::consume_if_starts_with"(rv(post(0, %1)), $3)
  let %3 = call "oak_core::lexer::LexerState::advance_byte"(rv(post(0, %2)))
  let %4 = call "oak_core::lexer::LexerState::get_position"(rv(post(0, %2)))
  let %5 = call "oak_core::lexer::LexerState::add_token"(rv(post(0, %2)), $1, call "oak_core::lexer::LexerState::get_position"($0), %4)
  let %6 = call "oak_core::lexer::LexerState::add_token"(rv(lv("L0", "v0")), $1, call "oak_core::lexer::LexerState::get_position"($0), call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v0"))))
case
  if true(call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  if (call "oak_core::lexer::LexerState::peek_byte"(rv(lv("L0", "v0"))) is Some)
  if (len((*$3)) < 1)
  loop L0 | v0 from post(0, call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  panics
pass L0
  if (call "oak_core::lexer::LexerState::peek_byte"(rv(lv("L0", "v0"))) is Some)
  if not (len((*$3)) < 1)
  if not true(%2)
  loop L0 | v0 from post(0, call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  do call "oak_core::lexer::LexerState::peek_byte"(rv(lv("L0", "v0")))
  do %1
  do %2
  do %3
  then v0 := post(0, %3)
case
  if true(call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  if (call "oak_core::lexer::LexerState::peek_byte"(rv(lv("L0", "v0"))) is Some)
  if not (len((*$3)) < 1)
  if true(%2)
  loop L0 | v0 from post(0, call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2)
  do call "oak_core::lexer::LexerState::peek_byte"(rv(lv("L0", "v0")))
  do %1
  do %2
  do %4
  do %5
  set $0 := post(0, %5)
  ret 1
case
  if true(call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  if not (call "oak_core::lexer::LexerState::peek_byte"(rv(lv("L0", "v0"))) is Some)
  loop L0 | v0 from post(0, call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2)
  do call "oak_core::lexer::LexerState::peek_byte"(rv(lv("L0", "v0")))
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v0")))
  do %6
  set $0 := post(0, %6)
  ret 1
case
  if not true(call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2)
  set $0 := post(0, call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  ret 0

fn oak_core::lexer::LexerState::scan_line_comment
  given oak_core::lexer::LexerState::add_token
  given oak_core::lexer::LexerState::consume_if_starts_with
  given oak_core::lexer::LexerState::get_position
  given oak_core::lexer::LexerState::skip_until
  let %1 = call "oak_core::lexer::LexerState::skip_until"(rv(post(0, call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))), 10)
  let %2 = call "oak_core::lexer::LexerState::get_position"(rv(post(0, %1)))
  let %3 = call "oak_core::lexer::LexerState::add_token"(rv(post(0, %1)), $1, call "oak_core::lexer::LexerState::get_position"($0), %2)
case
  if true(call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2)
  do %1
  do %2
  do %3
  set $0 := post(0, %3)
  ret 1
case
  if not true(call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  do call "oak_core::lexer::LexerState::get_position"($0)
  do call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2)
  set $0 := post(0, call "oak_core::lexer::LexerState::consume_if_starts_with"($0, $2))
  ret 0

fn oak_core::lexer::scan_comment::CommentConfig::scan
  given oak_core::lexer::LexerState::add_token
  given oak_core::lexer::LexerState::advance
  given oak_core::lexer::LexerState::current
  given oak_core::lexer::LexerState::get_position
  given oak_core::lexer::LexerState::not_at_end
  given oak_core::lexer::LexerState::starts_with
  given oak_core::lexer::LexerState::take_while_byte
  let %1 = call "oak_core::lexer::LexerState::starts_with"($1, (*$0).block_start)
  let %2 = call "oak_core::lexer::LexerState::advance"($1, len((*(*$0).block_start)))
  let %3 = call "oak_core::lexer::LexerState::add_token"(rv(lv("L0", "v1")), $3, call "oak_core::lexer::LexerState::get_position"($1), call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v1"))))
  let %4 = call "oak_core::lexer::LexerState::starts_with"(rv(lv("L0", "v1")), (*$0).block_start)
  let %5 = call "oak_core::lexer::LexerState::advance"(rv(lv("L0", "v1")), len((*(*$0).block_start)))
  let %6 = call "char::len_utf8"(call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))@Some.0)
  let %7 = call "oak_core::lexer::LexerState::advance"(rv(lv("L0", "v1")), %6)
  let %8 = call "oak_core::lexer::LexerState::starts_with"(rv(lv("L0", "v1")), (*$0).block_end)
  let %9 = call "oak_core::lexer::LexerState::advance"(rv(lv("L0", "v1")), len((*(*$0).block_end)))
  let %10 = call "oak_core::lexer::LexerState::starts_with"($1, (*$0).line_marker)
  let %11 = call "oak_core::lexer::LexerState::advance"($1, len((*(*$0).line_marker)))
  let %12 = call "oak_core::lexer::LexerState::take_while_byte"(rv(post(0, %11)), clo('oak_core::lexer::scan_comment::CommentConfig::scan::{closure#0}', <>))
  let %13 = call "oak_core::lexer::LexerState::get_position"(rv(post(0, %12)))
  let %14 = call "oak_core::lexer::LexerState::add_token"(rv(post(0, %12)), $2, call "oak_core::lexer::LexerState::get_position"($1), %13)
case
  if (len((*(*$0).line_marker)) == 0)
  if (len((*(*$0).block_start)) == 0)
  do call "oak_core::lexer::LexerState::get_position"($1)
  ret 0
case
  if (len((*(*$0).line_marker)) == 0)
  if not (len((*(*$0).block_start)) == 0)
  if true(%1)
  if (lv("L0", "v0") < 1)
  loop L0 @0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do %1
  do %2
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v1")))
  do %3
  set $1 := post(0, %3)
  ret 1
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if true((*$0).nested_blocks)
  if true(%4)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %4
  do %5
  then v0 := (lv("L0", "v0") + 1)
  then v1 := post(0, %5)
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if true((*$0).nested_blocks)
  if not true(%4)
  if (len((*(*$0).block_end)) == 0)
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %4
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))
  do %6
  do %7
  then v0 := lv("L0", "v0")
  then v1 := post(0, %7)
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if true((*$0).nested_blocks)
  if not true(%4)
  if (len((*(*$0).block_end)) == 0)
  if not (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %4
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if true((*$0).nested_blocks)
  if not true(%4)
  if not (len((*(*$0).block_end)) == 0)
  if true(%8)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %4
  do %8
  do %9
  then v0 := (lv("L0", "v0") - 1)
  then v1 := post(0, %9)
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if true((*$0).nested_blocks)
  if not true(%4)
  if not (len((*(*$0).block_end)) == 0)
  if not true(%8)
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %4
  do %8
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))
  do %6
  do %7
  then v0 := lv("L0", "v0")
  then v1 := post(0, %7)
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if true((*$0).nested_blocks)
  if not true(%4)
  if not (len((*(*$0).block_end)) == 0)
  if not true(%8)
  if not (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %4
  do %8
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if not true((*$0).nested_blocks)
  if (len((*(*$0).block_end)) == 0)
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))
  do %6
  do %7
  then v0 := lv("L0", "v0")
  then v1 := post(0, %7)
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if not true((*$0).nested_blocks)
  if (len((*(*$0).block_end)) == 0)
  if not (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if not true((*$0).nested_blocks)
  if not (len((*(*$0).block_end)) == 0)
  if true(%8)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %8
  do %9
  then v0 := (lv("L0", "v0") - 1)
  then v1 := post(0, %9)
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if not true((*$0).nested_blocks)
  if not (len((*(*$0).block_end)) == 0)
  if not true(%8)
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %8
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))
  do %6
  do %7
  then v0 := lv("L0", "v0")
  then v1 := post(0, %7)
pass L0
  if not (lv("L0", "v0") < 1)
  if true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  if not true((*$0).nested_blocks)
  if not (len((*(*$0).block_end)) == 0)
  if not true(%8)
  if not (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1"))) is Some)
  loop L0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do %8
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v1")))
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
case
  if (len((*(*$0).line_marker)) == 0)
  if not (len((*(*$0).block_start)) == 0)
  if true(%1)
  if not (lv("L0", "v0") < 1)
  if not true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  loop L0 @0 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do %1
  do %2
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v1")))
  do %3
  set $1 := post(0, %3)
  ret 1
case
  if (len((*(*$0).line_marker)) == 0)
  if not (len((*(*$0).block_start)) == 0)
  if not true(%1)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do %1
  ret 0
case
  if not (len((*(*$0).line_marker)) == 0)
  if true(%10)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do %10
  do %11
  do %12
  do %13
  do %14
  set $1 := post(0, %14)
  ret 1
case
  if not (len((*(*$0).line_marker)) == 0)
  if not true(%10)
  if (len((*(*$0).block_start)) == 0)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do %10
  ret 0
case
  if not (len((*(*$0).line_marker)) == 0)
  if not true(%10)
  if not (len((*(*$0).block_start)) == 0)
  if true(%1)
  if (lv("L0", "v0") < 1)
  loop L0 @1 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do %10
  do %1
  do %2
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v1")))
  do %3
  set $1 := post(0, %3)
  ret 1
case
  if not (len((*(*$0).line_marker)) == 0)
  if not true(%10)
  if not (len((*(*$0).block_start)) == 0)
  if true(%1)
  if not (lv("L0", "v0") < 1)
  if not true(call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1"))))
  loop L0 @1 | v0 from 1 | v1 from post(0, %2)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do %10
  do %1
  do %2
  do call "oak_core::lexer::LexerState::not_at_end"(rv(lv("L0", "v1")))
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v1")))
  do %3
  set $1 := post(0, %3)
  ret 1
case
  if not (len((*(*$0).line_marker)) == 0)
  if not true(%10)
  if not (len((*(*$0).block_start)) == 0)
  if not true(%1)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do %10
  do %1
  ret 0

fn oak_core::lexer::scan_comment::CommentConfig::scan::{closure#0}  [private]
  takes u8
case
  ret !($1 == 10)

fn oak_core::lexer::scan_comment::starts_with_block_comment
case
  do call "[T]::starts_with"($0, rv(new "[]"{0: 47, 1: 42}))
  ret call "[T]::starts_with"($0, rv(new "[]"{0: 47, 1: 42}))

fn oak_core::lexer::scan_comment::starts_with_line_comment
case
  do call "[T]::starts_with"($0, rv(new "[]"{0: 47, 1: 47}))
  ret call "[T]::starts_with"($0, rv(new "[]"{0: 47, 1: 47}))

fn oak_core::lexer::scan_identifier::is_ascii_ident_continue
case
  if ($0 == 95)
  ret 1
case
  if not ($0 == 95)
  if true(call "u8::is_ascii_alphabetic"(rv($0)))
  do call "u8::is_ascii_alphabetic"(rv($0))
  ret 1
case
  if not ($0 == 95)
  if not true(call "u8::is_ascii_alphabetic"(rv($0)))
  do call "u8::is_ascii_alphabetic"(rv($0))
  do call "u8::is_ascii_digit"(rv($0))
  ret call "u8::is_ascii_digit"(rv($0))

fn oak_core::lexer::scan_identifier::is_ascii_ident_start
case
  if ($0 == 95)
  ret 1
case
  if not ($0 == 95)
  do call "u8::is_ascii_alphabetic"(rv($0))
  ret call "u8::is_ascii_alphabetic"(rv($0))

fn oak_core::lexer::scan_number::count_ascii_digit_prefix
  given oak_core::source::simd::SimdScanner::skip_ascii_digits
case
  do call "oak_core::source::simd::SimdScanner::skip_ascii_digits"($0)
  ret call "oak_core::source::simd::SimdScanner::skip_ascii_digits"($0)

fn oak_core::lexer::scan_number::count_ascii_hexdigit_prefix
  given oak_core::source::simd::SimdScanner::skip_ascii_hexdigits
case
  do call "oak_core::source::simd::SimdScanner::skip_ascii_hexdigits"($0)
  ret call "oak_core::source::simd::SimdScanner::skip_ascii_hexdigits"($0)

fn oak_core::lexer::scan_string::StringConfig::scan
  given oak_core::lexer::LexerState::add_token
  given oak_core::lexer::LexerState::advance
  given oak_core::lexer::LexerState::current
  given oak_core::lexer::LexerState::get_position
  given oak_core::lexer::LexerState::rest
  given oak_core::lexer::scan_string::find_first_of_4
  let %1 = call "[T]::contains"((*$0).quotes, rv(call "oak_core::lexer::LexerState::current"($1)@Some.0))
  let %2 = call "char::is_ascii"(rv(call "oak_core::lexer::LexerState::current"($1)@Some.0))
  let %3 = len((*call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))))
  let %4 = call "char::len_utf8"(call "oak_core::lexer::LexerState::current"($1)@Some.0)
  let %5 = call "oak_core::lexer::LexerState::add_token"(rv(lv("L0", "v0")), $2, call "oak_core::lexer::LexerState::get_position"($1), call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v0"))))
  let %6 = trunc('u8', call "oak_core::lexer::LexerState::current"($1)@Some.0)
  let %7 = call "oak_core::lexer::scan_string::find_first_of_4"(call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0"))), %6, trunc('u8', (*$0).escape@Some.0), %6, trunc('u8', (*$0).escape@Some.0))
  let %8 = (%6 == (*call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0"))))[%7@Some.0])
  let %9 = call "oak_core::lexer::LexerState::advance"(rv(lv("L0", "v0")), %7@Some.0)
  let %10 = call "oak_core::lexer::LexerState::advance"(rv(post(0, %9)), 1)
  let %11 = call "oak_core::lexer::LexerState::current"(rv(post(0, %10)))
  let %12 = call "oak_core::lexer::LexerState::advance"(rv(post(0, %10)), call "char::len_utf8"(%11@Some.0))
  let %13 = call "oak_core::lexer::LexerState::advance"(rv(lv("L0", "v0")), %3)
  let %14 = call "oak_core::lexer::LexerState::get_position"(rv(post(0, %10)))
  let %15 = call "oak_core::lexer::LexerState::add_token"(rv(post(0, %10)), $2, call "oak_core::lexer::LexerState::get_position"($1), %14)
  let %16 = call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0")))@Some.0
  let %17 = (%16 === call "oak_core::lexer::LexerState::current"($1)@Some.0)
  let %18 = call "oak_core::lexer::LexerState::advance"(rv(lv("L0", "v0")), call "char::len_utf8"(%16))
  let %19 = call "oak_core::lexer::LexerState::get_position"(rv(post(0, %18)))
  let %20 = call "oak_core::lexer::LexerState::add_token"(rv(post(0, %18)), $2, call "oak_core::lexer::LexerState::get_position"($1), %19)
  let %21 = call "oak_core::lexer::LexerState::current"(rv(post(0, %18)))
  let %22 = call "oak_core::lexer::LexerState::advance"(rv(post(0, %18)), call "char::len_utf8"(%21@Some.0))
  let %23 = call "oak_core::lexer::scan_string::find_first_of_4"(call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0"))), %6, %6, %6, %6)
  let %24 = (%6 == (*call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0"))))[%23@Some.0])
  let %25 = call "oak_core::lexer::LexerState::advance"(rv(lv("L0", "v0")), %23@Some.0)
  let %26 = call "oak_core::lexer::LexerState::advance"(rv(post(0, %25)), 1)
  let %27 = call "oak_core::lexer::LexerState::current"(rv(post(0, %26)))
  let %28 = call "oak_core::lexer::LexerState::advance"(rv(post(0, %26)), call "char::len_utf8"(%27@Some.0))
  let %29 = call "oak_core::lexer::LexerState::get_position"(rv(post(0, %26)))
  let %30 = call "oak_core::lexer::LexerState::add_token"(rv(post(0, %26)), $2, call "oak_core::lexer::LexerState::get_position"($1), %29)
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if true(%2)
  if ((*$0).escape is Some)
  if true(call "char::is_ascii"(rv((*$0).escape@Some.0)))
  if (%3 == 0)
  loop L0 @0 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  do %4
  do call "oak_core::lexer::LexerState::advance"($1, %4)
  do %2
  do call "char::is_ascii"(rv((*$0).escape@Some.0))
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v0")))
  do %5
  set $1 := post(0, %5)
  ret 1
pass L0
  if not (%3 == 0)
  if (%7 is Some)
  if not (%3 < %7@Some.0 + 1)
  if not %8
  if (%11 is Some)
  loop L0 @0 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do %7
  do %9
  do %10
  do %11
  do call "char::len_utf8"(%11@Some.0)
  do %12
  then v0 := post(0, %12)
pass L0
  if not (%3 == 0)
  if (%7 is Some)
  if not (%3 < %7@Some.0 + 1)
  if not %8
  if not (%11 is Some)
  loop L0 @0 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do %7
  do %9
  do %10
  do %11
  then v0 := post(0, %10)
pass L0
  if not (%3 == 0)
  if not (%7 is Some)
  loop L0 @0 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do %7
  do %13
  then v0 := post(0, %13)
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if true(%2)
  if ((*$0).escape is Some)
  if true(call "char::is_ascii"(rv((*$0).escape@Some.0)))
  if not (%3 == 0)
  if (%7 is Some)
  if (%3 < %7@Some.0 + 1)
  loop L0 @0 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  panics
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if true(%2)
  if ((*$0).escape is Some)
  if true(call "char::is_ascii"(rv((*$0).escape@Some.0)))
  if not (%3 == 0)
  if (%7 is Some)
  if not (%3 < %7@Some.0 + 1)
  if %8
  loop L0 @0 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  do %4
  do call "oak_core::lexer::LexerState::advance"($1, %4)
  do %2
  do call "char::is_ascii"(rv((*$0).escape@Some.0))
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do %7
  do %9
  do %10
  do %14
  do %15
  set $1 := post(0, %15)
  ret 1
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if true(%2)
  if ((*$0).escape is Some)
  if not true(call "char::is_ascii"(rv((*$0).escape@Some.0)))
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0"))) is Some)
  if not ((*$0).escape === new "core::option::Option" Some{0: %16})
  if %17
  loop L0 @1 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  do %4
  do call "oak_core::lexer::LexerState::advance"($1, %4)
  do %2
  do call "char::is_ascii"(rv((*$0).escape@Some.0))
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0")))
  do call "char::len_utf8"(%16)
  do %18
  do %19
  do %20
  set $1 := post(0, %20)
  ret 1
pass L0
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0"))) is Some)
  if ((*$0).escape === new "core::option::Option" Some{0: %16})
  if (%21 is Some)
  loop L0 @1,2 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0")))
  do call "char::len_utf8"(%16)
  do %18
  do %21
  do call "char::len_utf8"(%21@Some.0)
  do %22
  then v0 := post(0, %22)
pass L0
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0"))) is Some)
  if ((*$0).escape === new "core::option::Option" Some{0: %16})
  if not (%21 is Some)
  loop L0 @1,2 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0")))
  do call "char::len_utf8"(%16)
  do %18
  do %21
  then v0 := post(0, %18)
pass L0
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0"))) is Some)
  if not ((*$0).escape === new "core::option::Option" Some{0: %16})
  if not %17
  loop L0 @1,2 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0")))
  do call "char::len_utf8"(%16)
  do %18
  then v0 := post(0, %18)
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if true(%2)
  if ((*$0).escape is Some)
  if not true(call "char::is_ascii"(rv((*$0).escape@Some.0)))
  if not (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0"))) is Some)
  loop L0 @1 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  do %4
  do call "oak_core::lexer::LexerState::advance"($1, %4)
  do %2
  do call "char::is_ascii"(rv((*$0).escape@Some.0))
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0")))
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v0")))
  do %5
  set $1 := post(0, %5)
  ret 1
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if true(%2)
  if not ((*$0).escape is Some)
  if (%3 == 0)
  loop L0 @3 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  do %4
  do call "oak_core::lexer::LexerState::advance"($1, %4)
  do %2
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v0")))
  do %5
  set $1 := post(0, %5)
  ret 1
pass L0
  if not (%3 == 0)
  if (%23 is Some)
  if not (%3 < %23@Some.0 + 1)
  if not %24
  if (%27 is Some)
  loop L0 @3 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do %23
  do %25
  do %26
  do %27
  do call "char::len_utf8"(%27@Some.0)
  do %28
  then v0 := post(0, %28)
pass L0
  if not (%3 == 0)
  if (%23 is Some)
  if not (%3 < %23@Some.0 + 1)
  if not %24
  if not (%27 is Some)
  loop L0 @3 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do %23
  do %25
  do %26
  do %27
  then v0 := post(0, %26)
pass L0
  if not (%3 == 0)
  if not (%23 is Some)
  loop L0 @3 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do %23
  do %13
  then v0 := post(0, %13)
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if true(%2)
  if not ((*$0).escape is Some)
  if not (%3 == 0)
  if (%23 is Some)
  if (%3 < %23@Some.0 + 1)
  loop L0 @3 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  panics
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if true(%2)
  if not ((*$0).escape is Some)
  if not (%3 == 0)
  if (%23 is Some)
  if not (%3 < %23@Some.0 + 1)
  if %24
  loop L0 @3 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  do %4
  do call "oak_core::lexer::LexerState::advance"($1, %4)
  do %2
  do call "oak_core::lexer::LexerState::rest"(rv(lv("L0", "v0")))
  do %23
  do %25
  do %26
  do %29
  do %30
  set $1 := post(0, %30)
  ret 1
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if not true(%2)
  if (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0"))) is Some)
  if not ((*$0).escape === new "core::option::Option" Some{0: %16})
  if %17
  loop L0 @2 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  do %4
  do call "oak_core::lexer::LexerState::advance"($1, %4)
  do %2
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0")))
  do call "char::len_utf8"(%16)
  do %18
  do %19
  do %20
  set $1 := post(0, %20)
  ret 1
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if true(%1)
  if not true(%2)
  if not (call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0"))) is Some)
  loop L0 @2 | v0 from post(0, call "oak_core::lexer::LexerState::advance"($1, %4))
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  do %4
  do call "oak_core::lexer::LexerState::advance"($1, %4)
  do %2
  do call "oak_core::lexer::LexerState::current"(rv(lv("L0", "v0")))
  do call "oak_core::lexer::LexerState::get_position"(rv(lv("L0", "v0")))
  do %5
  set $1 := post(0, %5)
  ret 1
case
  if (call "oak_core::lexer::LexerState::current"($1) is Some)
  if not true(%1)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  do %1
  ret 0
case
  if not (call "oak_core::lexer::LexerState::current"($1) is Some)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::current"($1)
  ret 0

fn oak_core::lexer::scan_string::find_first_of_4
  given oak_core::source::simd::SimdScanner::find_first_of_4
  let %1 = call "oak_core::source::simd::SimdScanner::find_first_of_4"($0, $1, $2, $3, $4)
case
  do %1
  ret %1

fn oak_core::lexer::scan_white_space::WhitespaceConfig::scan
  given oak_core::lexer::LexerState::add_token
  given oak_core::lexer::LexerState::get_position
  given oak_core::lexer::LexerState::skip_ascii_whitespace
  given oak_core::lexer::LexerState::take_while
  let %1 = rv(post(0, call "oak_core::lexer::LexerState::take_while"($1, clo('oak_core::lexer::scan_white_space::WhitespaceConfig::scan::{closure#0}', <>))))
  let %2 = (call "oak_core::lexer::LexerState::get_position"($1) < call "oak_core::lexer::LexerState::get_position"(%1))
  let %3 = call "oak_core::lexer::LexerState::add_token"(%1, $2, call "oak_core::lexer::LexerState::get_position"($1), call "oak_core::lexer::LexerState::get_position"(%1))
  let %4 = call "oak_core::lexer::LexerState::get_position"(rv(post(0, call "oak_core::lexer::LexerState::skip_ascii_whitespace"($1))))
  let %5 = call "oak_core::lexer::LexerState::add_token"(rv(post(0, call "oak_core::lexer::LexerState::skip_ascii_whitespace"($1))), $2, call "oak_core::lexer::LexerState::get_position"($1), %4)
case
  if true((*$0).unicode_whitespace)
  if %2
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::take_while"($1, clo('oak_core::lexer::scan_white_space::WhitespaceConfig::scan::{closure#0}', <>))
  do %3
  set $1 := post(0, %3)
  ret 1
case
  if true((*$0).unicode_whitespace)
  if not %2
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::take_while"($1, clo('oak_core::lexer::scan_white_space::WhitespaceConfig::scan::{closure#0}', <>))
  set $1 := post(0, call "oak_core::lexer::LexerState::take_while"($1, clo('oak_core::lexer::scan_white_space::WhitespaceConfig::scan::{closure#0}', <>)))
  ret 0
case
  if not true((*$0).unicode_whitespace)
  if (call "oak_core::lexer::LexerState::get_position"($1) < %4)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::skip_ascii_whitespace"($1)
  do %5
  set $1 := post(0, %5)
  ret 1
case
  if not true((*$0).unicode_whitespace)
  if not (call "oak_core::lexer::LexerState::get_position"($1) < %4)
  do call "oak_core::lexer::LexerState::get_position"($1)
  do call "oak_core::lexer::LexerState::skip_ascii_whitespace"($1)
  set $1 := post(0, call "oak_core::lexer::LexerState::skip_ascii_whitespace"($1))
  ret 0

fn oak_core::lexer::scan_white_space::WhitespaceConfig::scan::{closure#0}  [private]
  takes char
case
  do call "char::is_whitespace"($1)
  ret call "char::is_whitespace"($1)

fn oak_core::lexer::scan_white_space::count_space_tab_prefix
  given oak_core::source::simd::SimdScanner::skip_two_bytes
case
  do call "oak_core::source::simd::SimdScanner::skip_two_bytes"($0, 32, 9)
  ret call "oak_core::source::simd::SimdScanner::skip_two_bytes"($0, 32, 9)
