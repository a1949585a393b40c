fn <oak_pretty_print::comment::CommentCollector as core::default::Default>::default
case
  ret new "oak_pretty_print::comment::CommentCollector"{comments: vnew()}

fn <oak_pretty_print::comment::CommentProcessor as core::default::Default>::default
case
  ret new "oak_pretty_print::comment::CommentProcessor"{collector: new "oak_pretty_print::comment::CommentCollector"{comments: vnew()}, preserve_comments: 1, format_comments: 1}

fn oak_pretty_print::comment::Comment::block
case
  ret new "oak_pretty_print::comment::Comment"{kind: new "oak_pretty_print::comment::CommentKind" Block{}, content: $0, span: $1, is_trailing: 0, indent_level: 0}

fn oak_pretty_print::comment::Comment::doc
case
  ret new "oak_pretty_print::comment::Comment"{kind: new "oak_pretty_print::comment::CommentKind" Doc{}, content: $0, span: $1, is_trailing: 0, indent_level: 0}

fn oak_pretty_print::comment::Comment::formatted_text
case
  if ((*$0).kind is Line)
  if (len((*call "str::trim"(rv((*$0).content)))) == 0)
  do call "str::trim"(rv((*$0).content))
  ret cat(<"//", (*$0).content>)
case
  if ((*$0).kind is Line)
  if not (len((*call "str::trim"(rv((*$0).content)))) == 0)
  do call "str::trim"(rv((*$0).content))
  do call "str::trim"(rv((*$0).content))
  ret cat(<"// ", call "str::trim"(rv((*$0).content))>)
case
  if ((*$0).kind is Doc)
  if (len((*call "str::trim"(rv((*$0).content)))) == 0)
  do call "str::trim"(rv((*$0).content))
  ret cat(<"///", (*$0).content>)
case
  if ((*$0).kind is Doc)
  if not (len((*call "str::trim"(rv((*$0).content)))) == 0)
  do call "str::trim"(rv((*$0).content))
  do call "str::trim"(rv((*$0).content))
  ret cat(<"/// ", call "str::trim"(rv((*$0).content))>)
case
  if ((*$0).kind is Block)
  if (len((*call "str::trim"(rv((*$0).content)))) == 0)
  do call "str::trim"(rv((*$0).content))
  ret cat(<"/*", (*$0).content, " */">)
case
  if ((*$0).kind is Block)
  if not (len((*call "str::trim"(rv((*$0).content)))) == 0)
  if true(call "str::contains"(rv((*$0).content), 10))
  if (len(call "str::lines"((*$0).content)) < n("L0") + 1)
  loop L0 | v0 from "/*\n"
  do call "str::trim"(rv((*$0).content))
  do call "str::contains"(rv((*$0).content), 10)
  ret cat(<lv("L0", "v0"), $1, " */">)
pass L0
  if not (len(call "str::lines"((*$0).content)) < n("L0") + 1)
  loop L0 | v0 from "/*\n"
  do call "str::trim"(call "str::lines"((*$0).content)[n("L0")])
  then v0 := cat(<lv("L0", "v0"), $1, " * ", call "str::trim"(call "str::lines"((*$0).content)[n("L0")]), "\n">)
case
  if ((*$0).kind is Block)
  if not (len((*call "str::trim"(rv((*$0).content)))) == 0)
  if not true(call "str::contains"(rv((*$0).content), 10))
  do call "str::trim"(rv((*$0).content))
  do call "str::contains"(rv((*$0).content), 10)
  do call "str::trim"(rv((*$0).content))
  ret cat(<"/* ", call "str::trim"(rv((*$0).content)), " */">)

fn oak_pretty_print::comment::Comment::line
case
  ret new "oak_pretty_print::comment::Comment"{kind: new "oak_pretty_print::comment::CommentKind" Line{}, content: $0, span: $1, is_trailing: 0, indent_level: 0}

fn oak_pretty_print::comment::Comment::new
case
  ret new "oak_pretty_print::comment::Comment"{kind: $0, content: $1, span: $2, is_trailing: 0, indent_level: 0}

fn oak_pretty_print::comment::Comment::with_indent_level
case
  ret ($0 with {indent_level: $1})

fn oak_pretty_print::comment::Comment::with_trailing
case
  ret ($0 with {is_trailing: $1})

fn oak_pretty_print::comment::CommentCollector::add_comment
case
  set $0 := ((*$0) with {comments: vpush((*$0).comments, $1)})
  ret tup{}

fn oak_pretty_print::comment::CommentCollector::clear
case
  set $0 := ((*$0) with {comments: vnew()})
  ret tup{}

fn oak_pretty_print::comment::CommentCollector::comments
case
  ret rv((*$0).comments)

fn oak_pretty_print::comment::CommentCollector::comments_after
case
  if not (n("L0") < len((*$0).comments))
  loop L0 | v0 from vnew()
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0).comments))
  if ($1.offset < (*$0).comments[n("L0")].span.start.offset + 1)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), rv((*$0).comments[n("L0")]))
pass L0
  if (n("L0") < len((*$0).comments))
  if not ($1.offset < (*$0).comments[n("L0")].span.start.offset + 1)
  loop L0 | v0 from vnew()
  then v0 := lv("L0", "v0")

fn oak_pretty_print::comment::CommentCollector::comments_before
case
  if not (n("L0") < len((*$0).comments))
  loop L0 | v0 from vnew()
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0).comments))
  if ($1.offset < (*$0).comments[n("L0")].span.end.offset)
  loop L0 | v0 from vnew()
  then v0 := lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0).comments))
  if not ($1.offset < (*$0).comments[n("L0")].span.end.offset)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), rv((*$0).comments[n("L0")]))

fn oak_pretty_print::comment::CommentCollector::comments_in_range
case
  if not (n("L0") < len((*$0).comments))
  loop L0 | v0 from vnew()
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0).comments))
  if ($1.offset < (*$0).comments[n("L0")].span.start.offset + 1)
  if not ((*$0).comments[n("L0")].span.end.offset < $2.offset + 1)
  loop L0 | v0 from vnew()
  then v0 := lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0).comments))
  if ($1.offset < (*$0).comments[n("L0")].span.start.offset + 1)
  if ((*$0).comments[n("L0")].span.end.offset < $2.offset + 1)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), rv((*$0).comments[n("L0")]))
pass L0
  if (n("L0") < len((*$0).comments))
  if not ($1.offset < (*$0).comments[n("L0")].span.start.offset + 1)
  loop L0 | v0 from vnew()
  then v0 := lv("L0", "v0")

fn oak_pretty_print::comment::CommentCollector::comments_mut
case
  ret rv((*$0).comments)

fn oak_pretty_print::comment::CommentCollector::new
case
  ret new "oak_pretty_print::comment::CommentCollector"{comments: vnew()}

fn oak_pretty_print::comment::CommentCollector::sort_by_position
  let %1 = call "[T]::sort_by"(rv((*$0).comments), clo('oak_pretty_print::comment::CommentCollector::sort_by_position::{closure#0}', <>))
case
  do %1
  set $0 := ((*$0) with {comments: post(0, %1)})
  ret %1

fn oak_pretty_print::comment::CommentCollector::sort_by_position::{closure#0}  [private]
  takes &oak_pretty_print::comment::Comment; &oak_pretty_print::comment::Comment
case
  ret cmp3((*$1).span.start.offset, (*$2).span.start.offset)

fn oak_pretty_print::comment::CommentCollector::trailing_comments
case
  if not (n("L0") < len((*$0).comments))
  loop L0 | v0 from vnew()
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0).comments))
  if true((*$0).comments[n("L0")].is_trailing)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), rv((*$0).comments[n("L0")]))
pass L0
  if (n("L0") < len((*$0).comments))
  if not true((*$0).comments[n("L0")].is_trailing)
  loop L0 | v0 from vnew()
  then v0 := lv("L0", "v0")

fn oak_pretty_print::comment::CommentProcessor::collector
case
  ret rv((*$0).collector)

fn oak_pretty_print::comment::CommentProcessor::collector_mut
case
  ret rv((*$0).collector)

fn oak_pretty_print::comment::CommentProcessor::insert_comments_at_position
  given oak_pretty_print::comment::Comment::formatted_text
  given oak_pretty_print::comment::CommentCollector::comments_before
  let %1 = call "oak_pretty_print::comment::CommentCollector::comments_before"(rv((*$0).collector), $2)
  let %2 = call "oak_pretty_print::comment::Comment::formatted_text"(%1[n("L0")], $3)
case
  if not (n("L0") < len(%1))
  loop L0 | v0 from (*$1)
  do %1
  set $1 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len(%1))
  if true((*%1[n("L0")]).is_trailing)
  loop L0 | v0 from (*$1)
  then v0 := lv("L0", "v0")
pass L0
  if (n("L0") < len(%1))
  if not true((*%1[n("L0")]).is_trailing)
  loop L0 | v0 from (*$1)
  do %2
  then v0 := cat(<lv("L0", "v0"), $3, %2, "\n">)

fn oak_pretty_print::comment::CommentProcessor::insert_trailing_comment
  given oak_pretty_print::comment::Comment::formatted_text
  given oak_pretty_print::comment::CommentCollector::comments_after
  let %1 = call "oak_pretty_print::comment::CommentCollector::comments_after"(rv((*$0).collector), $2)
  let %2 = call "oak_pretty_print::comment::Comment::formatted_text"(%1[n("C0")], "")
case
  if (n("C0") < len(%1))
  if true((*%1[n("C0")]).is_trailing)
  loop C0
  do %1
  do %2
  set $1 := cat(<(*$1), " ", %2>)
  ret tup{}
case
  if not (n("C0") < len(%1))
  loop C0
  do %1
  ret tup{}

fn oak_pretty_print::comment::CommentProcessor::new
case
  ret new "oak_pretty_print::comment::CommentProcessor"{collector: new "oak_pretty_print::comment::CommentCollector"{comments: vnew()}, preserve_comments: 1, format_comments: 1}

fn oak_pretty_print::comment::CommentProcessor::process_comments
  given oak_pretty_print::comment::Comment::formatted_text
  let %1 = call "oak_pretty_print::comment::Comment::formatted_text"(rv((*$1)[n("L0")]), $2)
case
  if true((*$0).preserve_comments)
  if not (n("L0") < len((*$1)))
  loop L0 | v0 from vnew()
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$1)))
  if true((*$0).format_comments)
  loop L0 | v0 from vnew()
  do %1
  then v0 := vpush(lv("L0", "v0"), %1)
pass L0
  if (n("L0") < len((*$1)))
  if not true((*$0).format_comments)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), (*$1)[n("L0")].content)
case
  if not true((*$0).preserve_comments)
  ret vnew()

fn oak_pretty_print::comment::CommentProcessor::with_format_comments
case
  ret ($0 with {format_comments: $1})

fn oak_pretty_print::comment::CommentProcessor::with_preserve_comments
case
  ret ($0 with {preserve_comments: $1})
