fn <() as oak_diagnostic::Localizer>::localize
case
  ret ""

fn <oak_core::errors::OakError as oak_diagnostic::DiagnosticProvider>::to_diagnostic
  let %1 = call "into"("alloc::string::String", display('d', (*$0).kind))
  let %2 = min((*(*$0).kind)@SyntaxError.offset, call "oak_core::source::Source::length"($1))
  let %3 = min(call "oak_core::source::Source::length"($1), (*(*$0).kind)@UnexpectedCharacter.offset)
  let %4 = min(call "oak_core::source::Source::length"($1), (*(*$0).kind)@UnexpectedToken.offset)
  let %5 = min(call "oak_core::source::Source::length"($1), (*(*$0).kind)@ExpectedToken.offset)
  let %6 = min(call "oak_core::source::Source::length"($1), (*(*$0).kind)@ExpectedName.offset)
  let %7 = min(call "oak_core::source::Source::length"($1), (*(*$0).kind)@TrailingCommaNotAllowed.offset)
case
  if ((*(*$0).kind) is IoError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.io")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.io")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is SyntaxError)
  do call "oak_core::source::Source::length"($1)
  do call "oak_core::source::Source::length"($1)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.syntax")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.syntax")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vpush(vnew(), new "oak_diagnostic::Label"{message: new "core::option::Option" Some{0: call "into"("alloc::string::String", "here")}, span: new "range"{start: %2, end: min(call "oak_core::source::Source::length"($1), (%2 + 1))}, color: new "core::option::Option" None{}}), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is UnexpectedCharacter)
  do call "oak_core::source::Source::length"($1)
  do call "oak_core::source::Source::length"($1)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.unexpected_character")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.unexpected_character")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vpush(vnew(), new "oak_diagnostic::Label"{message: new "core::option::Option" Some{0: call "into"("alloc::string::String", "here")}, span: new "range"{start: %3, end: min(call "oak_core::source::Source::length"($1), (%3 + 1))}, color: new "core::option::Option" None{}}), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is UnexpectedToken)
  do call "oak_core::source::Source::length"($1)
  do call "oak_core::source::Source::length"($1)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.unexpected_token")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.unexpected_token")}, i18n_args: hins(hnew(), call "into"("alloc::string::String", "token"), call "into"("alloc::string::String", (*(*$0).kind)@UnexpectedToken.token)), severity: new "oak_diagnostic::Severity" Error{}, labels: vpush(vnew(), new "oak_diagnostic::Label"{message: new "core::option::Option" Some{0: call "into"("alloc::string::String", "here")}, span: new "range"{start: %4, end: min(call "oak_core::source::Source::length"($1), (%4 + 1))}, color: new "core::option::Option" None{}}), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is UnexpectedEof)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.unexpected_eof")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.unexpected_eof")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is CustomError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.custom")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.custom")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is InvalidTheme)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.invalid_theme")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.invalid_theme")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is UnsupportedFormat)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.unsupported_format")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.unsupported_format")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is ColorParseError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.color_parse")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.color_parse")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is FormatError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.format")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.format")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is SemanticError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.semantic")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.semantic")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is ProtocolError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.protocol")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.protocol")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is ExpectedToken)
  do call "oak_core::source::Source::length"($1)
  do call "oak_core::source::Source::length"($1)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.expected_token")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.expected_token")}, i18n_args: hins(hnew(), call "into"("alloc::string::String", "expected"), call "into"("alloc::string::String", (*(*$0).kind)@ExpectedToken.expected)), severity: new "oak_diagnostic::Severity" Error{}, labels: vpush(vnew(), new "oak_diagnostic::Label"{message: new "core::option::Option" Some{0: call "into"("alloc::string::String", "here")}, span: new "range"{start: %5, end: min(call "oak_core::source::Source::length"($1), (%5 + 1))}, color: new "core::option::Option" None{}}), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is ExpectedName)
  do call "oak_core::source::Source::length"($1)
  do call "oak_core::source::Source::length"($1)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.expected_name")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.expected_name")}, i18n_args: hins(hnew(), call "into"("alloc::string::String", "name_kind"), call "into"("alloc::string::String", (*(*$0).kind)@ExpectedName.name_kind)), severity: new "oak_diagnostic::Severity" Error{}, labels: vpush(vnew(), new "oak_diagnostic::Label"{message: new "core::option::Option" Some{0: call "into"("alloc::string::String", "here")}, span: new "range"{start: %6, end: min(call "oak_core::source::Source::length"($1), (%6 + 1))}, color: new "core::option::Option" None{}}), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is TrailingCommaNotAllowed)
  do call "oak_core::source::Source::length"($1)
  do call "oak_core::source::Source::length"($1)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.trailing_comma_not_allowed")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.trailing_comma_not_allowed")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vpush(vnew(), new "oak_diagnostic::Label"{message: new "core::option::Option" Some{0: call "into"("alloc::string::String", "here")}, span: new "range"{start: %7, end: min(call "oak_core::source::Source::length"($1), (%7 + 1))}, color: new "core::option::Option" None{}}), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is TestFailure)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.test_failure")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.test_failure")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is TestRegenerated)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.test_regenerated")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.test_regenerated")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is SerdeError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.serde")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.serde")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is DeserializeError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.deserialize")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.deserialize")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is XmlError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.xml")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.xml")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is ZipError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.zip")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.zip")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is ParseError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.parse")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.parse")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}
case
  if ((*(*$0).kind) is InternalError)
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.internal")}, message: %1, i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", "error.internal")}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}

fn <oak_diagnostic::ConsoleEmitter as core::default::Default>::default
case
  ret new "oak_diagnostic::ConsoleEmitter"{unicode: 1}

fn <oak_diagnostic::ConsoleEmitter as oak_diagnostic::Emitter>::render_localized
  given oak_diagnostic::ConsoleEmitter::render_snippet
  given oak_vfs::line_map::LineMap::from_source
  let %1 = call "oak_diagnostic::Localizer::localize"($3@Some.0, rv((*$2).i18n_key@Some.0), rv((*$2).i18n_args))
  let %2 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: 0, end: call "oak_core::source::Source::length"($1)})
  let %3 = cat(<lv("L0", "v0"), "\n[36;1mhelp[0m: ", (*$2).help@Some.0, "\n">)
  let %4 = call "oak_diagnostic::ConsoleEmitter::render_snippet"($0, rv(lv("L0", "v0")), $1, rv(call "oak_vfs::line_map::LineMap::from_source"($1)), rv(%2), rv(call "str::lines"(%2)), rv((*$2).labels[n("L0")]), $4)
  let %5 = cat(<"[31;1m[", (*$2).code@Some.0, "][0m ", (*$2).message, "\n">)
  let %6 = cat(<"[36;1m[", (*$2).code@Some.0, "][0m ", (*$2).message, "\n">)
  let %7 = cat(<"[33;1m[", (*$2).code@Some.0, "][0m ", (*$2).message, "\n">)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[31;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[31;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[31;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[31;1m[error][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[31;1m[error][0m ", %1, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[31;1m[error][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @0 | v0 from %5
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %5
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @0 | v0 from %5
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @1 | v0 from cat(<"[31;1m[error][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[31;1m[error][0m ", (*$2).message, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @1 | v0 from cat(<"[31;1m[error][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @2 | v0 from %5
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @2 | v0 from %5
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @3 | v0 from cat(<"[31;1m[error][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @3 | v0 from cat(<"[31;1m[error][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[36;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[36;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[36;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[36;1m[advice][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[36;1m[advice][0m ", %1, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[36;1m[advice][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @4 | v0 from %6
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %6
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @4 | v0 from %6
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @5 | v0 from cat(<"[36;1m[advice][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[36;1m[advice][0m ", (*$2).message, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @5 | v0 from cat(<"[36;1m[advice][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @6 | v0 from %6
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @6 | v0 from %6
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @7 | v0 from cat(<"[36;1m[advice][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @7 | v0 from cat(<"[36;1m[advice][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[33;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[33;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[33;1m[", (*$2).code@Some.0, "][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[33;1m[warning][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[33;1m[warning][0m ", %1, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[33;1m[warning][0m ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @8 | v0 from %7
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %7
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @8 | v0 from %7
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @9 | v0 from cat(<"[33;1m[warning][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[33;1m[warning][0m ", (*$2).message, "\n">)
  do %4
  then v0 := post(1, %4)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @9 | v0 from cat(<"[33;1m[warning][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @10 | v0 from %7
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @10 | v0 from %7
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @11 | v0 from cat(<"[33;1m[warning][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret %3
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @11 | v0 from cat(<"[33;1m[warning][0m ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")

fn <oak_diagnostic::Diagnostic as core::convert::From<&oak_core::errors::OakError>>::from
case
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" None{}, message: call "into"("alloc::string::String", display('d', $0)), i18n_key: new "core::option::Option" None{}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}

fn <oak_diagnostic::HtmlEmitter as oak_diagnostic::Emitter>::render_localized
  given oak_diagnostic::HtmlEmitter::render_snippet
  given oak_diagnostic::html_escape
  given oak_vfs::line_map::LineMap::from_source
  let %1 = call "oak_diagnostic::Localizer::localize"($3@Some.0, rv((*$2).i18n_key@Some.0), rv((*$2).i18n_args))
  let %2 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header error\">\n    <span class=\"code\">[", (*$2).code@Some.0, "]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv(%1)), "</span>\n  </div>\n">)
  let %3 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: 0, end: call "oak_core::source::Source::length"($1)})
  let %4 = cat(<lv("L0", "v0"), "  <div class=\"help\">help: ", call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0)), "</div>\n</div>">)
  let %5 = call "oak_diagnostic::HtmlEmitter::render_snippet"($0, rv(lv("L0", "v0")), $1, rv(call "oak_vfs::line_map::LineMap::from_source"($1)), rv(%3), rv(call "str::lines"(%3)), rv((*$2).labels[n("L0")]), $4)
  let %6 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header error\">\n    <span class=\"severity\">[error]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv(%1)), "</span>\n  </div>\n">)
  let %7 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header error\">\n    <span class=\"code\">[", (*$2).code@Some.0, "]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv((*$2).message)), "</span>\n  </div>\n">)
  let %8 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header error\">\n    <span class=\"severity\">[error]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv((*$2).message)), "</span>\n  </div>\n">)
  let %9 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header advice\">\n    <span class=\"code\">[", (*$2).code@Some.0, "]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv(%1)), "</span>\n  </div>\n">)
  let %10 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header advice\">\n    <span class=\"severity\">[advice]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv(%1)), "</span>\n  </div>\n">)
  let %11 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header advice\">\n    <span class=\"code\">[", (*$2).code@Some.0, "]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv((*$2).message)), "</span>\n  </div>\n">)
  let %12 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header advice\">\n    <span class=\"severity\">[advice]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv((*$2).message)), "</span>\n  </div>\n">)
  let %13 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header warning\">\n    <span class=\"code\">[", (*$2).code@Some.0, "]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv(%1)), "</span>\n  </div>\n">)
  let %14 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header warning\">\n    <span class=\"severity\">[warning]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv(%1)), "</span>\n  </div>\n">)
  let %15 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header warning\">\n    <span class=\"code\">[", (*$2).code@Some.0, "]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv((*$2).message)), "</span>\n  </div>\n">)
  let %16 = cat(<"<div class=\"diagnostic\">\n  <div class=\"header warning\">\n    <span class=\"severity\">[warning]</span> <span class=\"message\">", call "oak_diagnostic::html_escape"(rv((*$2).message)), "</span>\n  </div>\n">)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from %2
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %2
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from %2
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from %6
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %6
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from %6
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @0 | v0 from %7
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %7
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @0 | v0 from %7
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @1 | v0 from %8
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %8
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @1 | v0 from %8
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @2 | v0 from %7
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @2 | v0 from %7
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @3 | v0 from %8
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @3 | v0 from %8
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from %9
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %9
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from %9
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from %10
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %10
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from %10
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @4 | v0 from %11
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %11
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @4 | v0 from %11
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @5 | v0 from %12
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %12
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @5 | v0 from %12
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @6 | v0 from %11
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @6 | v0 from %11
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @7 | v0 from %12
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @7 | v0 from %12
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from %13
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %13
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from %13
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from %14
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %14
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from %14
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do %1
  do call "oak_diagnostic::html_escape"(rv(%1))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @8 | v0 from %15
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %15
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @8 | v0 from %15
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @9 | v0 from %16
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from %16
  do %5
  then v0 := post(1, %5)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @9 | v0 from %16
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @10 | v0 from %15
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @10 | v0 from %15
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @11 | v0 from %16
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  do call "oak_diagnostic::html_escape"(rv((*$2).help@Some.0))
  ret %4
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @11 | v0 from %16
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %3
  do call "oak_diagnostic::html_escape"(rv((*$2).message))
  ret cat(<lv("L0", "v0"), "</div>">)

fn <oak_diagnostic::LspEmitter as oak_diagnostic::Emitter>::render_localized
  given oak_vfs::line_map::LineMap::from_source
  given oak_vfs::line_map::LineMap::offset_to_line_col_utf16
  let %1 = call "serde_json::value::to_value"(rv(case{((*$2).code is Some) => (*$2).code@Some.0; !((*$2).code is Some) => ""}))
  let %2 = call "oak_diagnostic::Localizer::localize"($3@Some.0, rv((*$2).i18n_key@Some.0), rv((*$2).i18n_args))
  let %3 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "line", call "serde_json::value::to_value"(rv(0))@Ok.0)
  let %4 = call "serde_json::map::Map::insert"(rv(post(0, %3)), "character", call "serde_json::value::to_value"(rv(0))@Ok.0)
  let %5 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "start", new "serde_json::value::Value"{0: post(0, %4)})
  let %6 = call "serde_json::map::Map::insert"(rv(post(0, %5)), "end", new "serde_json::value::Value"{0: post(0, %4)})
  let %7 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "range", new "serde_json::value::Value"{0: post(0, %6)})
  let %8 = call "serde_json::map::Map::insert"(rv(post(0, %7)), "severity", call "serde_json::value::to_value"(rv(1))@Ok.0)
  let %9 = call "serde_json::map::Map::insert"(rv(post(0, %8)), "code", %1@Ok.0)
  let %10 = call "serde_json::map::Map::insert"(rv(post(0, %9)), "source", call "serde_json::value::to_value"("oak")@Ok.0)
  let %11 = call "serde_json::map::Map::insert"(rv(post(0, %10)), "message", call "serde_json::value::to_value"(rv(%2))@Ok.0)
  let %12 = call "serde_json::map::Map::insert"(rv(post(0, %11)), "relatedInformation", call "serde_json::value::to_value"(rv(vnew()))@Ok.0)
  let %13 = (call "serde_json::value::to_value"(rv((*$2).message)) is Err)
  let %14 = call "serde_json::map::Map::insert"(rv(post(0, %10)), "message", call "serde_json::value::to_value"(rv((*$2).message))@Ok.0)
  let %15 = call "serde_json::map::Map::insert"(rv(post(0, %14)), "relatedInformation", call "serde_json::value::to_value"(rv(vnew()))@Ok.0)
  let %16 = display('d', new "serde_json::value::Value"{0: post(0, %15)})
  let %17 = call "serde_json::map::Map::insert"(rv(post(0, %7)), "severity", call "serde_json::value::to_value"(rv(3))@Ok.0)
  let %18 = call "serde_json::map::Map::insert"(rv(post(0, %17)), "code", %1@Ok.0)
  let %19 = call "serde_json::map::Map::insert"(rv(post(0, %18)), "source", call "serde_json::value::to_value"("oak")@Ok.0)
  let %20 = call "serde_json::map::Map::insert"(rv(post(0, %19)), "message", call "serde_json::value::to_value"(rv(%2))@Ok.0)
  let %21 = call "serde_json::map::Map::insert"(rv(post(0, %20)), "relatedInformation", call "serde_json::value::to_value"(rv(vnew()))@Ok.0)
  let %22 = call "serde_json::map::Map::insert"(rv(post(0, %19)), "message", call "serde_json::value::to_value"(rv((*$2).message))@Ok.0)
  let %23 = call "serde_json::map::Map::insert"(rv(post(0, %22)), "relatedInformation", call "serde_json::value::to_value"(rv(vnew()))@Ok.0)
  let %24 = display('d', new "serde_json::value::Value"{0: post(0, %23)})
  let %25 = call "serde_json::map::Map::insert"(rv(post(0, %7)), "severity", call "serde_json::value::to_value"(rv(2))@Ok.0)
  let %26 = call "serde_json::map::Map::insert"(rv(post(0, %25)), "code", %1@Ok.0)
  let %27 = call "serde_json::map::Map::insert"(rv(post(0, %26)), "source", call "serde_json::value::to_value"("oak")@Ok.0)
  let %28 = call "serde_json::map::Map::insert"(rv(post(0, %27)), "message", call "serde_json::value::to_value"(rv(%2))@Ok.0)
  let %29 = call "serde_json::map::Map::insert"(rv(post(0, %28)), "relatedInformation", call "serde_json::value::to_value"(rv(vnew()))@Ok.0)
  let %30 = call "serde_json::map::Map::insert"(rv(post(0, %27)), "message", call "serde_json::value::to_value"(rv((*$2).message))@Ok.0)
  let %31 = call "serde_json::map::Map::insert"(rv(post(0, %30)), "relatedInformation", call "serde_json::value::to_value"(rv(vnew()))@Ok.0)
  let %32 = display('d', new "serde_json::value::Value"{0: post(0, %31)})
  let %33 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"(rv(call "oak_vfs::line_map::LineMap::from_source"($1)), $1, (*$2).labels[0].span.start)
  let %34 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"(rv(call "oak_vfs::line_map::LineMap::from_source"($1)), $1, (*$2).labels[0].span.end)
  let %35 = call "serde_json::value::to_value"(rv(case{($4 is Some) => $4@Some.0; !($4 is Some) => ""}))
  let %36 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"(rv(call "oak_vfs::line_map::LineMap::from_source"($1)), $1, (*$2).labels[n("L0")].span.start)
  let %37 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"(rv(call "oak_vfs::line_map::LineMap::from_source"($1)), $1, (*$2).labels[n("L0")].span.end)
  let %38 = call "serde_json::value::to_value"(rv((*$2).labels[n("L0")].message@Some.0))
  let %39 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "uri", %35@Ok.0)
  let %40 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "line", call "serde_json::value::to_value"(rv(%36.0))@Ok.0)
  let %41 = call "serde_json::map::Map::insert"(rv(post(0, %40)), "character", call "serde_json::value::to_value"(rv(%36.1))@Ok.0)
  let %42 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "start", new "serde_json::value::Value"{0: post(0, %41)})
  let %43 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "line", call "serde_json::value::to_value"(rv(%37.0))@Ok.0)
  let %44 = call "serde_json::map::Map::insert"(rv(post(0, %43)), "character", call "serde_json::value::to_value"(rv(%37.1))@Ok.0)
  let %45 = call "serde_json::map::Map::insert"(rv(post(0, %42)), "end", new "serde_json::value::Value"{0: post(0, %44)})
  let %46 = call "serde_json::map::Map::insert"(rv(post(0, %39)), "range", new "serde_json::value::Value"{0: post(0, %45)})
  let %47 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "location", new "serde_json::value::Value"{0: post(0, %46)})
  let %48 = call "serde_json::map::Map::insert"(rv(post(0, %47)), "message", %38@Ok.0)
  let %49 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "line", call "serde_json::value::to_value"(rv(%33.0))@Ok.0)
  let %50 = call "serde_json::map::Map::insert"(rv(post(0, %49)), "character", call "serde_json::value::to_value"(rv(%33.1))@Ok.0)
  let %51 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "start", new "serde_json::value::Value"{0: post(0, %50)})
  let %52 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "line", call "serde_json::value::to_value"(rv(%34.0))@Ok.0)
  let %53 = call "serde_json::map::Map::insert"(rv(post(0, %52)), "character", call "serde_json::value::to_value"(rv(%34.1))@Ok.0)
  let %54 = call "serde_json::map::Map::insert"(rv(post(0, %51)), "end", new "serde_json::value::Value"{0: post(0, %53)})
  let %55 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "range", new "serde_json::value::Value"{0: post(0, %54)})
  let %56 = call "serde_json::map::Map::insert"(rv(post(0, %55)), "severity", call "serde_json::value::to_value"(rv(1))@Ok.0)
  let %57 = call "serde_json::map::Map::insert"(rv(post(0, %56)), "code", %1@Ok.0)
  let %58 = call "serde_json::map::Map::insert"(rv(post(0, %57)), "source", call "serde_json::value::to_value"("oak")@Ok.0)
  let %59 = call "serde_json::map::Map::insert"(rv(post(0, %58)), "message", call "serde_json::value::to_value"(rv(%2))@Ok.0)
  let %60 = call "serde_json::map::Map::insert"(rv(post(0, %59)), "relatedInformation", call "serde_json::value::to_value"(rv(lv("L0", "v0")))@Ok.0)
  let %61 = call "serde_json::map::Map::insert"(rv(post(0, %58)), "message", call "serde_json::value::to_value"(rv((*$2).message))@Ok.0)
  let %62 = call "serde_json::map::Map::insert"(rv(post(0, %61)), "relatedInformation", call "serde_json::value::to_value"(rv(lv("L0", "v0")))@Ok.0)
  let %63 = display('d', new "serde_json::value::Value"{0: post(0, %62)})
  let %64 = call "serde_json::map::Map::insert"(rv(post(0, %55)), "severity", call "serde_json::value::to_value"(rv(3))@Ok.0)
  let %65 = call "serde_json::map::Map::insert"(rv(post(0, %64)), "code", %1@Ok.0)
  let %66 = call "serde_json::map::Map::insert"(rv(post(0, %65)), "source", call "serde_json::value::to_value"("oak")@Ok.0)
  let %67 = call "serde_json::map::Map::insert"(rv(post(0, %66)), "message", call "serde_json::value::to_value"(rv(%2))@Ok.0)
  let %68 = call "serde_json::map::Map::insert"(rv(post(0, %67)), "relatedInformation", call "serde_json::value::to_value"(rv(lv("L0", "v0")))@Ok.0)
  let %69 = call "serde_json::map::Map::insert"(rv(post(0, %66)), "message", call "serde_json::value::to_value"(rv((*$2).message))@Ok.0)
  let %70 = call "serde_json::map::Map::insert"(rv(post(0, %69)), "relatedInformation", call "serde_json::value::to_value"(rv(lv("L0", "v0")))@Ok.0)
  let %71 = display('d', new "serde_json::value::Value"{0: post(0, %70)})
  let %72 = call "serde_json::map::Map::insert"(rv(post(0, %55)), "severity", call "serde_json::value::to_value"(rv(2))@Ok.0)
  let %73 = call "serde_json::map::Map::insert"(rv(post(0, %72)), "code", %1@Ok.0)
  let %74 = call "serde_json::map::Map::insert"(rv(post(0, %73)), "source", call "serde_json::value::to_value"("oak")@Ok.0)
  let %75 = call "serde_json::map::Map::insert"(rv(post(0, %74)), "message", call "serde_json::value::to_value"(rv(%2))@Ok.0)
  let %76 = call "serde_json::map::Map::insert"(rv(post(0, %75)), "relatedInformation", call "serde_json::value::to_value"(rv(lv("L0", "v0")))@Ok.0)
  let %77 = call "serde_json::map::Map::insert"(rv(post(0, %74)), "message", call "serde_json::value::to_value"(rv((*$2).message))@Ok.0)
  let %78 = call "serde_json::map::Map::insert"(rv(post(0, %77)), "relatedInformation", call "serde_json::value::to_value"(rv(lv("L0", "v0")))@Ok.0)
  let %79 = display('d', new "serde_json::value::Value"{0: post(0, %78)})
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(1)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if (call "serde_json::value::to_value"(rv(%2)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %2
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(1))
  do %8
  do %1
  do %9
  do call "serde_json::value::to_value"("oak")
  do %10
  do call "serde_json::value::to_value"(rv(%2))
  do %11
  do call "serde_json::value::to_value"(rv(vnew()))
  do %12
  ret display('d', new "serde_json::value::Value"{0: post(0, %12)})
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(1)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(1))
  do %8
  do %1
  do %9
  do call "serde_json::value::to_value"("oak")
  do %10
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %14
  do call "serde_json::value::to_value"(rv(vnew()))
  do %15
  ret %16
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(1)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(1))
  do %8
  do %1
  do %9
  do call "serde_json::value::to_value"("oak")
  do %10
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %14
  do call "serde_json::value::to_value"(rv(vnew()))
  do %15
  ret %16
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(3)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if (call "serde_json::value::to_value"(rv(%2)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %2
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(3))
  do %17
  do %1
  do %18
  do call "serde_json::value::to_value"("oak")
  do %19
  do call "serde_json::value::to_value"(rv(%2))
  do %20
  do call "serde_json::value::to_value"(rv(vnew()))
  do %21
  ret display('d', new "serde_json::value::Value"{0: post(0, %21)})
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(3)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(3))
  do %17
  do %1
  do %18
  do call "serde_json::value::to_value"("oak")
  do %19
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %22
  do call "serde_json::value::to_value"(rv(vnew()))
  do %23
  ret %24
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(3)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(3))
  do %17
  do %1
  do %18
  do call "serde_json::value::to_value"("oak")
  do %19
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %22
  do call "serde_json::value::to_value"(rv(vnew()))
  do %23
  ret %24
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(2)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if (call "serde_json::value::to_value"(rv(%2)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %2
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(2))
  do %25
  do %1
  do %26
  do call "serde_json::value::to_value"("oak")
  do %27
  do call "serde_json::value::to_value"(rv(%2))
  do %28
  do call "serde_json::value::to_value"(rv(vnew()))
  do %29
  ret display('d', new "serde_json::value::Value"{0: post(0, %29)})
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(2)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(2))
  do %25
  do %1
  do %26
  do call "serde_json::value::to_value"("oak")
  do %27
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %30
  do call "serde_json::value::to_value"(rv(vnew()))
  do %31
  ret %32
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if (call "serde_json::value::to_value"(rv(0)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if (call "serde_json::value::to_value"(rv(2)) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if (%1 is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (call "serde_json::value::to_value"(rv(vnew())) is Err)
  panics
case
  if (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(0)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if not (call "serde_json::value::to_value"(rv(vnew())) is Err)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %5
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(0))
  do %3
  do call "serde_json::value::to_value"(rv(0))
  do %4
  do %6
  do %7
  do call "serde_json::value::to_value"(rv(2))
  do %25
  do %1
  do %26
  do call "serde_json::value::to_value"("oak")
  do %27
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %30
  do call "serde_json::value::to_value"(rv(vnew()))
  do %31
  ret %32
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if (call "serde_json::value::to_value"(rv(%2)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @0 | v0 from vnew()
  panics
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  if ((*$2).labels[n("L0")].message is Some)
  if not (%35 is Err)
  if not (call "serde_json::value::to_value"(rv(%36.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%36.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%37.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%37.1)) is Err)
  if not (%38 is Err)
  loop L0 | v0 from vnew()
  do %36
  do %37
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do %35
  do %39
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%36.0))
  do %40
  do call "serde_json::value::to_value"(rv(%36.1))
  do %41
  do %42
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%37.0))
  do %43
  do call "serde_json::value::to_value"(rv(%37.1))
  do %44
  do %45
  do %46
  do %47
  do %38
  do %48
  then v0 := vpush(lv("L0", "v0"), new "serde_json::value::Value"{0: post(0, %48)})
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).labels[n("L0")].message is Some)
  loop L0 | v0 from vnew()
  then v0 := lv("L0", "v0")
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @0 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do %2
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(1))
  do %56
  do %1
  do %57
  do call "serde_json::value::to_value"("oak")
  do %58
  do call "serde_json::value::to_value"(rv(%2))
  do %59
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %60
  ret display('d', new "serde_json::value::Value"{0: post(0, %60)})
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @1 | v0 from vnew()
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @1 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(1))
  do %56
  do %1
  do %57
  do call "serde_json::value::to_value"("oak")
  do %58
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %61
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %62
  ret %63
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @2 | v0 from vnew()
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(1)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @2 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(1))
  do %56
  do %1
  do %57
  do call "serde_json::value::to_value"("oak")
  do %58
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %61
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %62
  ret %63
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(3)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if (call "serde_json::value::to_value"(rv(%2)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @3 | v0 from vnew()
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @3 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do %2
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(3))
  do %64
  do %1
  do %65
  do call "serde_json::value::to_value"("oak")
  do %66
  do call "serde_json::value::to_value"(rv(%2))
  do %67
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %68
  ret display('d', new "serde_json::value::Value"{0: post(0, %68)})
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(3)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @4 | v0 from vnew()
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @4 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(3))
  do %64
  do %1
  do %65
  do call "serde_json::value::to_value"("oak")
  do %66
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %69
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %70
  ret %71
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(3)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @5 | v0 from vnew()
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(3)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @5 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(3))
  do %64
  do %1
  do %65
  do call "serde_json::value::to_value"("oak")
  do %66
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %69
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %70
  ret %71
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(2)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if (call "serde_json::value::to_value"(rv(%2)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @6 | v0 from vnew()
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not (call "serde_json::value::to_value"(rv(%2)) is Err)
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @6 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do %2
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(2))
  do %72
  do %1
  do %73
  do call "serde_json::value::to_value"("oak")
  do %74
  do call "serde_json::value::to_value"(rv(%2))
  do %75
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %76
  ret display('d', new "serde_json::value::Value"{0: post(0, %76)})
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(2)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @7 | v0 from vnew()
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @7 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(2))
  do %72
  do %1
  do %73
  do call "serde_json::value::to_value"("oak")
  do %74
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %77
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %78
  ret %79
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if (call "serde_json::value::to_value"(rv(2)) is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if (%1 is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if (call "serde_json::value::to_value"("oak") is Err)
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if %13
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @8 | v0 from vnew()
  panics
case
  if not (len((*$2).labels) == 0)
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not (call "serde_json::value::to_value"(rv(%33.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%33.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.0)) is Err)
  if not (call "serde_json::value::to_value"(rv(%34.1)) is Err)
  if not (call "serde_json::value::to_value"(rv(2)) is Err)
  if not (%1 is Err)
  if not (call "serde_json::value::to_value"("oak") is Err)
  if not %13
  if (len((*$2).labels) < n("L0") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 @8 | v0 from vnew()
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do %33
  do %34
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%33.0))
  do %49
  do call "serde_json::value::to_value"(rv(%33.1))
  do %50
  do %51
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(%34.0))
  do %52
  do call "serde_json::value::to_value"(rv(%34.1))
  do %53
  do %54
  do %55
  do call "serde_json::value::to_value"(rv(2))
  do %72
  do %1
  do %73
  do call "serde_json::value::to_value"("oak")
  do %74
  do call "serde_json::value::to_value"(rv((*$2).message))
  do %77
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %78
  ret %79

fn <oak_diagnostic::PlainTextEmitter as core::default::Default>::default
case
  ret new "oak_diagnostic::PlainTextEmitter"{unicode: 0}

fn <oak_diagnostic::PlainTextEmitter as oak_diagnostic::Emitter>::render_localized
  given oak_diagnostic::PlainTextEmitter::render_snippet
  given oak_vfs::line_map::LineMap::from_source
  let %1 = call "oak_diagnostic::Localizer::localize"($3@Some.0, rv((*$2).i18n_key@Some.0), rv((*$2).i18n_args))
  let %2 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: 0, end: call "oak_core::source::Source::length"($1)})
  let %3 = call "oak_diagnostic::PlainTextEmitter::render_snippet"($0, rv(lv("L0", "v0")), $1, rv(call "oak_vfs::line_map::LineMap::from_source"($1)), rv(%2), rv(call "str::lines"(%2)), rv((*$2).labels[n("L0")]), $4)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @0 | v0 from cat(<"[", (*$2).code@Some.0, "] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[", (*$2).code@Some.0, "] ", %1, "\n">)
  do %3
  then v0 := post(1, %3)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @0 | v0 from cat(<"[", (*$2).code@Some.0, "] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[error] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[error] ", %1, "\n">)
  do %3
  then v0 := post(1, %3)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[error] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @1 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do %3
  then v0 := post(1, %3)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @1 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @2 | v0 from cat(<"[error] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[error] ", (*$2).message, "\n">)
  do %3
  then v0 := post(1, %3)
case
  if ((*$2).severity is Error)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @2 | v0 from cat(<"[error] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @3 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @3 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @4 | v0 from cat(<"[error] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Error)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @4 | v0 from cat(<"[error] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @5 | v0 from cat(<"[", (*$2).code@Some.0, "] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @5 | v0 from cat(<"[", (*$2).code@Some.0, "] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[advice] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[advice] ", %1, "\n">)
  do %3
  then v0 := post(1, %3)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[advice] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @6 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @6 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @7 | v0 from cat(<"[advice] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[advice] ", (*$2).message, "\n">)
  do %3
  then v0 := post(1, %3)
case
  if ((*$2).severity is Advice)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @7 | v0 from cat(<"[advice] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @8 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @8 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @9 | v0 from cat(<"[advice] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Advice)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @9 | v0 from cat(<"[advice] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @10 | v0 from cat(<"[", (*$2).code@Some.0, "] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @10 | v0 from cat(<"[", (*$2).code@Some.0, "] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 | v0 from cat(<"[warning] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[warning] ", %1, "\n">)
  do %3
  then v0 := post(1, %3)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 | v0 from cat(<"[warning] ", %1, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  do %1
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @11 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @11 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @12 | v0 from cat(<"[warning] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
pass L0
  if not (len((*$2).labels) < n("L0") + 1)
  loop L0 | v0 from cat(<"[warning] ", (*$2).message, "\n">)
  do %3
  then v0 := post(1, %3)
case
  if ((*$2).severity is Warning)
  if ((*$2).i18n_key is Some)
  if not ($3 is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @12 | v0 from cat(<"[warning] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @13 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @13 | v0 from cat(<"[", (*$2).code@Some.0, "] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if ((*$2).help is Some)
  loop L0 @14 | v0 from cat(<"[warning] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret cat(<lv("L0", "v0"), "\nhelp: ", (*$2).help@Some.0, "\n">)
case
  if ((*$2).severity is Warning)
  if not ((*$2).i18n_key is Some)
  if not ((*$2).code is Some)
  if (len((*$2).labels) < n("L0") + 1)
  if not ((*$2).help is Some)
  loop L0 @14 | v0 from cat(<"[warning] ", (*$2).message, "\n">)
  do call "oak_vfs::line_map::LineMap::from_source"($1)
  do call "oak_core::source::Source::length"($1)
  do %2
  ret lv("L0", "v0")

fn oak_diagnostic::Characters::ascii  [private]
  takes nothing
case
  ret new "oak_diagnostic::Characters"{vbar: "|", hbar: "_", ltop: "/", lbot: "|"}

fn oak_diagnostic::Characters::unicode  [private]
  takes nothing
case
  ret new "oak_diagnostic::Characters"{vbar: "│", hbar: "─", ltop: "┌", lbot: "└"}

fn oak_diagnostic::ConsoleEmitter::render_snippet  [private]
  takes &oak_diagnostic::ConsoleEmitter; &mut alloc::string::String; &S; &oak_vfs::line_map::LineMap; &str; &[&str]; &oak_diagnostic::Label; core::option::Option<&str>
  given oak_vfs::line_map::LineMap::line_start
  given oak_vfs::line_map::LineMap::offset_to_line_col_utf16
  let %1 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"($3, $2, (*$6).span.start)
  let %2 = (call "oak_vfs::line_map::LineMap::line_start"($3, %1.0) is Some)
  let %3 = case{!%2 => 0; %2 => call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)@Some.0}
  let %4 = true(validrange((*$4), %3, min((*$6).span.start, len((*$4)))))
  let %5 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"($3, $2, (*$6).span.end)
  let %6 = (call "oak_vfs::line_map::LineMap::line_start"($3, %5.0) is Some)
  let %7 = case{!%6 => 0; %6 => call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)@Some.0}
  let %8 = case{!($7 is Some) => "<anonymous>"; ($7 is Some) => $7@Some.0}
  let %9 = len(call "str::chars"(slice((*$4), %3, min((*$6).span.start, len((*$4))))))
  let %10 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %11 = true(validrange((*$4), min((*$6).span.start, len((*$4))), min((*$6).span.end, len((*$4)))))
  let %12 = call "str::repeat"("^", max(1, len(call "str::chars"(slice((*$4), min((*$6).span.start, len((*$4))), min((*$6).span.end, len((*$4))))))))
  let %13 = display('d:f28000020,w*', (%1.0 + 1), len(display('d', (%5.0 + 1))))
  let %14 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", %9), (*$6).color@Some.0, %12, "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %15 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", %9), (*$6).color@Some.0, %12, "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %16 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", %9), "[31;1m", %12, "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %17 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", %9), "[31;1m", %12, "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %18 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", %9), (*$6).color@Some.0, call "str::repeat"("^", 1), "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %19 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", %9), (*$6).color@Some.0, call "str::repeat"("^", 1), "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %20 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", %9), "[31;1m", call "str::repeat"("^", 1), "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %21 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", %9), "[31;1m", call "str::repeat"("^", 1), "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %22 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %23 = cat(<lv("L0", "v0"), call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %24 = display('d:f28000020,w*', (%1.0 + n("L0") + 1), len(display('d', (%5.0 + 1))))
  let %25 = cat(<lv("L0", "v0"), %24, " [34m│[0m ", (*$6).color@Some.0, "┌[0m ", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %26 = len(call "str::chars"(slice((*$4), %7, min((*$6).span.end, len((*$4))))))
  let %27 = cat(<lv("L0", "v0"), %24, " [34m│[0m ", (*$6).color@Some.0, "│[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", (*$6).color@Some.0, "└", call "str::repeat"("─", %26), call "str::repeat"("^", max(1, %26)), " ", (*$6).message@Some.0, "[0m\n">)
  let %28 = cat(<lv("L0", "v0"), %24, " [34m│[0m ", (*$6).color@Some.0, "│[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", (*$6).color@Some.0, "└", call "str::repeat"("─", %26), call "str::repeat"("^", max(1, %26)), "[0m\n">)
  let %29 = cat(<lv("L0", "v0"), %24, " [34m│[0m ", (*$6).color@Some.0, "│[0m ", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %30 = cat(<lv("L0", "v0"), %24, " [34m│[0m [31;1m┌[0m ", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %31 = cat(<lv("L0", "v0"), %24, " [34m│[0m [31;1m│[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m [31;1m└", call "str::repeat"("─", %26), call "str::repeat"("^", max(1, %26)), " ", (*$6).message@Some.0, "[0m\n">)
  let %32 = cat(<lv("L0", "v0"), %24, " [34m│[0m [31;1m│[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m [31;1m└", call "str::repeat"("─", %26), call "str::repeat"("^", max(1, %26)), "[0m\n">)
  let %33 = cat(<lv("L0", "v0"), %24, " [34m│[0m [31;1m│[0m ", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %34 = cat(<lv("L0", "v0"), %24, " [34m│[0m ", (*$6).color@Some.0, "│[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", (*$6).color@Some.0, "└", call "str::repeat"("─", 0), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "[0m\n">)
  let %35 = cat(<lv("L0", "v0"), %24, " [34m│[0m ", (*$6).color@Some.0, "│[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", (*$6).color@Some.0, "└", call "str::repeat"("─", 0), call "str::repeat"("^", 1), "[0m\n">)
  let %36 = cat(<lv("L0", "v0"), %24, " [34m│[0m [31;1m│[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m [31;1m└", call "str::repeat"("─", 0), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "[0m\n">)
  let %37 = cat(<lv("L0", "v0"), %24, " [34m│[0m [31;1m│[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m [31;1m└", call "str::repeat"("─", 0), call "str::repeat"("^", 1), "[0m\n">)
  let %38 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %39 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", 0), (*$6).color@Some.0, %12, "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %40 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", 0), (*$6).color@Some.0, %12, "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %41 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", 0), "[31;1m", %12, "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %42 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", 0), "[31;1m", %12, "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %43 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", 0), (*$6).color@Some.0, call "str::repeat"("^", 1), "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %44 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", 0), (*$6).color@Some.0, call "str::repeat"("^", 1), "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %45 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", 0), "[31;1m", call "str::repeat"("^", 1), "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %46 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n", %13, " [34m│[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m ", call "str::repeat"(" ", 0), "[31;1m", call "str::repeat"("^", 1), "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %47 = cat(<(*$1), "  [34m┌[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m│[0m\n">)
  let %48 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %49 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", %9), (*$6).color@Some.0, %12, "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %50 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", %9), (*$6).color@Some.0, %12, "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %51 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", %9), "[31;1m", %12, "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %52 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", %9), "[31;1m", %12, "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %53 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", %9), (*$6).color@Some.0, call "str::repeat"("^", 1), "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %54 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", %9), (*$6).color@Some.0, call "str::repeat"("^", 1), "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %55 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", %9), "[31;1m", call "str::repeat"("^", 1), "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %56 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", %9), "[31;1m", call "str::repeat"("^", 1), "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %57 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %58 = cat(<lv("L0", "v0"), call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %59 = cat(<lv("L0", "v0"), %24, " [34m|[0m ", (*$6).color@Some.0, "/[0m ", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %60 = cat(<lv("L0", "v0"), %24, " [34m|[0m ", (*$6).color@Some.0, "|[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", (*$6).color@Some.0, "|", call "str::repeat"("_", %26), call "str::repeat"("^", max(1, %26)), " ", (*$6).message@Some.0, "[0m\n">)
  let %61 = cat(<lv("L0", "v0"), %24, " [34m|[0m ", (*$6).color@Some.0, "|[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", (*$6).color@Some.0, "|", call "str::repeat"("_", %26), call "str::repeat"("^", max(1, %26)), "[0m\n">)
  let %62 = cat(<lv("L0", "v0"), %24, " [34m|[0m ", (*$6).color@Some.0, "|[0m ", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %63 = cat(<lv("L0", "v0"), %24, " [34m|[0m [31;1m/[0m ", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %64 = cat(<lv("L0", "v0"), %24, " [34m|[0m [31;1m|[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m [31;1m|", call "str::repeat"("_", %26), call "str::repeat"("^", max(1, %26)), " ", (*$6).message@Some.0, "[0m\n">)
  let %65 = cat(<lv("L0", "v0"), %24, " [34m|[0m [31;1m|[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m [31;1m|", call "str::repeat"("_", %26), call "str::repeat"("^", max(1, %26)), "[0m\n">)
  let %66 = cat(<lv("L0", "v0"), %24, " [34m|[0m [31;1m|[0m ", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %67 = cat(<lv("L0", "v0"), %24, " [34m|[0m ", (*$6).color@Some.0, "|[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", (*$6).color@Some.0, "|", call "str::repeat"("_", 0), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "[0m\n">)
  let %68 = cat(<lv("L0", "v0"), %24, " [34m|[0m ", (*$6).color@Some.0, "|[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", (*$6).color@Some.0, "|", call "str::repeat"("_", 0), call "str::repeat"("^", 1), "[0m\n">)
  let %69 = cat(<lv("L0", "v0"), %24, " [34m|[0m [31;1m|[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m [31;1m|", call "str::repeat"("_", 0), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "[0m\n">)
  let %70 = cat(<lv("L0", "v0"), %24, " [34m|[0m [31;1m|[0m ", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m [31;1m|", call "str::repeat"("_", 0), call "str::repeat"("^", 1), "[0m\n">)
  let %71 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %72 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", 0), (*$6).color@Some.0, %12, "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %73 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", 0), (*$6).color@Some.0, %12, "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %74 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", 0), "[31;1m", %12, "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %75 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", 0), "[31;1m", %12, "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %76 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", 0), (*$6).color@Some.0, call "str::repeat"("^", 1), "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %77 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", 0), (*$6).color@Some.0, call "str::repeat"("^", 1), "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %78 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", 0), "[31;1m", call "str::repeat"("^", 1), "[0m ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %79 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n", %13, " [34m|[0m ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m ", call "str::repeat"(" ", 0), "[31;1m", call "str::repeat"("^", 1), "[0m\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
  let %80 = cat(<(*$1), "  [34m/[0m at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " [34m|[0m\n">)
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %10
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %14
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %15
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %16
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %17
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %18
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %19
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %20
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %21
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @0 | v0 from %22
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %23
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %22
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 @0,1 | v0 from %22
  then v0 := %25
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @0 | v0 from %22
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("─", %26)
  then v0 := %27
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @0 | v0 from %22
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("─", %26)
  then v0 := %28
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 @0,1 | v0 from %22
  then v0 := %29
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @2 | v0 from %22
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %23
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 @2,3 | v0 from %22
  then v0 := %30
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @2 | v0 from %22
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("─", %26)
  then v0 := %31
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @2 | v0 from %22
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("─", %26)
  then v0 := %32
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 @2,3 | v0 from %22
  then v0 := %33
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %10
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %14
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %15
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %16
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %17
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %18
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %19
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %20
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %21
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @1 | v0 from %22
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %23
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @1 | v0 from %22
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %34
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @1 | v0 from %22
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %35
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @3 | v0 from %22
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %23
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @3 | v0 from %22
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %36
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @3 | v0 from %22
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %37
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %38
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %39
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %40
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %41
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %42
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %43
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %44
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %45
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %46
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @4 | v0 from %47
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %23
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %47
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 @4,5 | v0 from %47
  then v0 := %25
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @4 | v0 from %47
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("─", %26)
  then v0 := %27
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @4 | v0 from %47
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("─", %26)
  then v0 := %28
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 @4,5 | v0 from %47
  then v0 := %29
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @6 | v0 from %47
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %23
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 @6,7 | v0 from %47
  then v0 := %30
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @6 | v0 from %47
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("─", %26)
  then v0 := %31
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @6 | v0 from %47
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("─", %26)
  then v0 := %32
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 @6,7 | v0 from %47
  then v0 := %33
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %38
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %39
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %40
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %41
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %42
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %43
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %44
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %45
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %46
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @5 | v0 from %47
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %23
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @5 | v0 from %47
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %34
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @5 | v0 from %47
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %35
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @7 | v0 from %47
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %23
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @7 | v0 from %47
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %36
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @7 | v0 from %47
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %37
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %48
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %49
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %50
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %51
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %52
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %53
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %54
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %55
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %56
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @8 | v0 from %57
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %58
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %57
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 @8,9 | v0 from %57
  then v0 := %59
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @8 | v0 from %57
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("_", %26)
  then v0 := %60
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @8 | v0 from %57
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("_", %26)
  then v0 := %61
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 @8,9 | v0 from %57
  then v0 := %62
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @10 | v0 from %57
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %58
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 @10,11 | v0 from %57
  then v0 := %63
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @10 | v0 from %57
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("_", %26)
  then v0 := %64
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @10 | v0 from %57
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("_", %26)
  then v0 := %65
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 @10,11 | v0 from %57
  then v0 := %66
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %48
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %49
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %50
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %51
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %52
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %53
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %54
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %55
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %56
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @9 | v0 from %57
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %58
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @9 | v0 from %57
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %67
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @9 | v0 from %57
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %68
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @11 | v0 from %57
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %58
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @11 | v0 from %57
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %69
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @11 | v0 from %57
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %70
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %71
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %72
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %73
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %74
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %75
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %76
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %77
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %78
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %79
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @12 | v0 from %80
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %58
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %80
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 @12,13 | v0 from %80
  then v0 := %59
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @12 | v0 from %80
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("_", %26)
  then v0 := %60
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @12 | v0 from %80
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("_", %26)
  then v0 := %61
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 @12,13 | v0 from %80
  then v0 := %62
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @14 | v0 from %80
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %58
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 @14,15 | v0 from %80
  then v0 := %63
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @14 | v0 from %80
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("_", %26)
  then v0 := %64
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @14 | v0 from %80
  do call "str::repeat"("^", max(1, %26))
  do call "str::repeat"("_", %26)
  then v0 := %65
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 @14,15 | v0 from %80
  then v0 := %66
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %71
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %72
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %73
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %74
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %75
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %76
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %77
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %78
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).color is Some)
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %79
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @13 | v0 from %80
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %58
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @13 | v0 from %80
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %67
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @13 | v0 from %80
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %68
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not ((*$6).color is Some)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @15 | v0 from %80
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %58
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @15 | v0 from %80
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %69
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @15 | v0 from %80
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %70

fn oak_diagnostic::Diagnostic::error
case
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" None{}, message: call "into"("alloc::string::String", $0), i18n_key: new "core::option::Option" None{}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Error{}, labels: vnew(), help: new "core::option::Option" None{}}

fn oak_diagnostic::Diagnostic::from_provider
case
  do call "oak_diagnostic::DiagnosticProvider::to_diagnostic"($0, $1)
  ret call "oak_diagnostic::DiagnosticProvider::to_diagnostic"($0, $1)

fn oak_diagnostic::Diagnostic::warning
case
  ret new "oak_diagnostic::Diagnostic"{code: new "core::option::Option" None{}, message: call "into"("alloc::string::String", $0), i18n_key: new "core::option::Option" None{}, i18n_args: hnew(), severity: new "oak_diagnostic::Severity" Warning{}, labels: vnew(), help: new "core::option::Option" None{}}

fn oak_diagnostic::Diagnostic::with_arg
case
  ret ($0 with {i18n_args: hins($0.i18n_args, call "into"("alloc::string::String", $1), call "into"("alloc::string::String", $2))})

fn oak_diagnostic::Diagnostic::with_code
case
  ret ($0 with {code: new "core::option::Option" Some{0: call "into"("alloc::string::String", $1)}})

fn oak_diagnostic::Diagnostic::with_help
case
  ret ($0 with {help: new "core::option::Option" Some{0: call "into"("alloc::string::String", $1)}})

fn oak_diagnostic::Diagnostic::with_i18n
case
  ret ($0 with {i18n_key: new "core::option::Option" Some{0: call "into"("alloc::string::String", $1)}})

fn oak_diagnostic::Diagnostic::with_label
case
  ret ($0 with {labels: vpush($0.labels, new "oak_diagnostic::Label"{message: new "core::option::Option" Some{0: call "into"("alloc::string::String", $2)}, span: $1, color: new "core::option::Option" None{}})})

fn oak_diagnostic::Emitter::render
  let %1 = call "oak_diagnostic::Emitter::render_localized"($0, $1, $2, new "core::option::Option" None{}, new "core::option::Option" None{})
case
  do %1
  ret %1

fn oak_diagnostic::HtmlEmitter::render_snippet  [private]
  takes &oak_diagnostic::HtmlEmitter; &mut alloc::string::String; &S; &oak_vfs::line_map::LineMap; &str; &[&str]; &oak_diagnostic::Label; core::option::Option<&str>
  given oak_vfs::line_map::LineMap::line_start
  given oak_vfs::line_map::LineMap::offset_to_line_col_utf16
  let %1 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"($3, $2, (*$6).span.start)
  let %2 = (call "oak_vfs::line_map::LineMap::line_start"($3, %1.0) is Some)
  let %3 = case{!%2 => 0; %2 => call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)@Some.0}
  let %4 = true(validrange((*$4), %3, min((*$6).span.start, len((*$4)))))
  let %5 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"($3, $2, (*$6).span.end)
  let %6 = (call "oak_vfs::line_map::LineMap::line_start"($3, %5.0) is Some)
  let %7 = case{!%6 => 0; %6 => call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)@Some.0}
  let %8 = call "str::replace"(case{!($7 is Some) => "<anonymous>"; ($7 is Some) => $7@Some.0}, 38, "&amp;")
  let %9 = call "str::replace"(rv(call "str::replace"(rv(%8), 60, "&lt;")), 62, "&gt;")
  let %10 = call "str::replace"(rv(call "str::replace"(rv(%9), 34, "&quot;")), 39, "&#39;")
  let %11 = len(call "str::chars"(slice((*$4), %3, min((*$6).span.start, len((*$4))))))
  let %12 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":", display('d', (%11 + 1)), "</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %13 = true(validrange((*$4), min((*$6).span.start, len((*$4))), min((*$6).span.end, len((*$4)))))
  let %14 = call "str::replace"(rv(call "str::replace"((*$5)[%1.0], 38, "&amp;")), 60, "&lt;")
  let %15 = call "str::replace"(rv(call "str::replace"(rv(%14), 62, "&gt;")), 34, "&quot;")
  let %16 = call "str::repeat"("^", max(1, len(call "str::chars"(slice((*$4), min((*$6).span.start, len((*$4))), min((*$6).span.end, len((*$4))))))))
  let %17 = call "str::replace"(rv(call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")), 60, "&lt;")
  let %18 = call "str::replace"(rv(call "str::replace"(rv(%17), 62, "&gt;")), 34, "&quot;")
  let %19 = display('d:f28000020,w*', (%1.0 + 1), len(display('d', (%5.0 + 1))))
  let %20 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":", display('d', (%11 + 1)), "</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"line-num\">", %19, "</span> <span class=\"vbar\">│</span> ", call "str::replace"(rv(%15), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"underline\">", call "str::repeat"(" ", %11), %16, "</span> <span class=\"label-msg\">", call "str::replace"(rv(%18), 39, "&#39;"), "</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %21 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":", display('d', (%11 + 1)), "</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"line-num\">", %19, "</span> <span class=\"vbar\">│</span> ", call "str::replace"(rv(%15), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"underline\">", call "str::repeat"(" ", %11), %16, "</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %22 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":", display('d', (%11 + 1)), "</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"line-num\">", %19, "</span> <span class=\"vbar\">│</span> ", call "str::replace"(rv(%15), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"underline\">", call "str::repeat"(" ", %11), call "str::repeat"("^", 1), "</span> <span class=\"label-msg\">", call "str::replace"(rv(%18), 39, "&#39;"), "</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %23 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":", display('d', (%11 + 1)), "</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"line-num\">", %19, "</span> <span class=\"vbar\">│</span> ", call "str::replace"(rv(%15), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"underline\">", call "str::repeat"(" ", %11), call "str::repeat"("^", 1), "</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %24 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":", display('d', (%11 + 1)), "</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n">)
  let %25 = cat(<lv("L0", "v0"), "<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %26 = call "str::replace"(rv(call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")), 60, "&lt;")
  let %27 = call "str::replace"(rv(call "str::replace"(rv(%26), 62, "&gt;")), 34, "&quot;")
  let %28 = display('d:f28000020,w*', (%1.0 + n("L0") + 1), len(display('d', (%5.0 + 1))))
  let %29 = cat(<lv("L0", "v0"), "<span class=\"line-num\">", %28, "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">┌</span>", call "str::replace"(rv(%27), 39, "&#39;"), "\n">)
  let %30 = len(call "str::chars"(slice((*$4), %7, min((*$6).span.end, len((*$4))))))
  let %31 = cat(<lv("L0", "v0"), "<span class=\"line-num\">", %28, "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">│</span>", call "str::replace"(rv(%27), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">", call "str::repeat"("─", %30), "</span><span class=\"underline\">", call "str::repeat"("^", max(1, %30)), "</span> <span class=\"label-msg\">", call "str::replace"(rv(%18), 39, "&#39;"), "</span>\n">)
  let %32 = cat(<lv("L0", "v0"), "<span class=\"line-num\">", %28, "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">│</span>", call "str::replace"(rv(%27), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">", call "str::repeat"("─", %30), "</span><span class=\"underline\">", call "str::repeat"("^", max(1, %30)), "</span>\n">)
  let %33 = cat(<lv("L0", "v0"), "<span class=\"line-num\">", %28, "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">│</span>", call "str::replace"(rv(%27), 39, "&#39;"), "\n">)
  let %34 = cat(<lv("L0", "v0"), "<span class=\"line-num\">", %28, "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">│</span>", call "str::replace"(rv(%27), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">", call "str::repeat"("─", 0), "</span><span class=\"underline\">", call "str::repeat"("^", 1), "</span> <span class=\"label-msg\">", call "str::replace"(rv(%18), 39, "&#39;"), "</span>\n">)
  let %35 = cat(<lv("L0", "v0"), "<span class=\"line-num\">", %28, "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">│</span>", call "str::replace"(rv(%27), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"multiline\">└</span><span class=\"underline\">", call "str::repeat"("─", 0), "</span><span class=\"underline\">", call "str::repeat"("^", 1), "</span>\n">)
  let %36 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":1</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %37 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":1</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"line-num\">", %19, "</span> <span class=\"vbar\">│</span> ", call "str::replace"(rv(%15), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"underline\">", call "str::repeat"(" ", 0), %16, "</span> <span class=\"label-msg\">", call "str::replace"(rv(%18), 39, "&#39;"), "</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %38 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":1</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"line-num\">", %19, "</span> <span class=\"vbar\">│</span> ", call "str::replace"(rv(%15), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"underline\">", call "str::repeat"(" ", 0), %16, "</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %39 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":1</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"line-num\">", %19, "</span> <span class=\"vbar\">│</span> ", call "str::replace"(rv(%15), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"underline\">", call "str::repeat"(" ", 0), call "str::repeat"("^", 1), "</span> <span class=\"label-msg\">", call "str::replace"(rv(%18), 39, "&#39;"), "</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %40 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":1</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n<span class=\"line-num\">", %19, "</span> <span class=\"vbar\">│</span> ", call "str::replace"(rv(%15), 39, "&#39;"), "\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span> <span class=\"underline\">", call "str::repeat"(" ", 0), call "str::repeat"("^", 1), "</span>\n<span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n</code></pre>\n  </div>\n">)
  let %41 = cat(<(*$1), "  <div class=\"snippet\">\n    <div class=\"location\">  ┌ at ", %10, ":", display('d', (%1.0 + 1)), ":1</div>\n    <pre><code><span class=\"padding\">", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), "</span> <span class=\"vbar\">│</span>\n">)
case
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %12
  ret tup{}
case
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %13
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", %11)
  do %16
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  set $1 := %20
  ret tup{}
case
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %13
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", %11)
  do %16
  set $1 := %21
  ret tup{}
case
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %13
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", %11)
  do call "str::repeat"("^", 1)
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  set $1 := %22
  ret tup{}
case
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %13
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", %11)
  do call "str::repeat"("^", 1)
  set $1 := %23
  ret tup{}
case
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @0 | v0 from %24
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %25
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %24
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 | v0 from %24
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  then v0 := %29
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @0 | v0 from %24
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  do call "str::repeat"("^", max(1, %30))
  do call "str::repeat"("─", %30)
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  then v0 := %31
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @0 | v0 from %24
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  do call "str::repeat"("^", max(1, %30))
  do call "str::repeat"("─", %30)
  then v0 := %32
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 | v0 from %24
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  then v0 := %33
case
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %12
  ret tup{}
case
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %13
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", %11)
  do %16
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  set $1 := %20
  ret tup{}
case
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %13
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", %11)
  do %16
  set $1 := %21
  ret tup{}
case
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %13
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", %11)
  do call "str::repeat"("^", 1)
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  set $1 := %22
  ret tup{}
case
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %13
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", %11)
  do call "str::repeat"("^", 1)
  set $1 := %23
  ret tup{}
case
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @1 | v0 from %24
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %25
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @1 | v0 from %24
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  then v0 := %34
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @1 | v0 from %24
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %35
case
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %36
  ret tup{}
case
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %13
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", 0)
  do %16
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  set $1 := %37
  ret tup{}
case
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %13
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", 0)
  do %16
  set $1 := %38
  ret tup{}
case
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %13
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  set $1 := %39
  ret tup{}
case
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %13
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %40
  ret tup{}
case
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @2 | v0 from %41
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %25
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %41
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 | v0 from %41
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  then v0 := %29
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @2 | v0 from %41
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  do call "str::repeat"("^", max(1, %30))
  do call "str::repeat"("─", %30)
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  then v0 := %31
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @2 | v0 from %41
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  do call "str::repeat"("^", max(1, %30))
  do call "str::repeat"("─", %30)
  then v0 := %32
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 | v0 from %41
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  then v0 := %33
case
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %36
  ret tup{}
case
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %13
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", 0)
  do %16
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  set $1 := %37
  ret tup{}
case
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %13
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", 0)
  do %16
  set $1 := %38
  ret tup{}
case
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %13
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  set $1 := %39
  ret tup{}
case
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %13
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::replace"((*$5)[%1.0], 38, "&amp;")
  do %14
  do call "str::replace"(rv(%14), 62, "&gt;")
  do %15
  do call "str::replace"(rv(%15), 39, "&#39;")
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %40
  ret tup{}
case
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @3 | v0 from %41
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do %8
  do call "str::replace"(rv(%8), 60, "&lt;")
  do %9
  do call "str::replace"(rv(%9), 34, "&quot;")
  do %10
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %25
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @3 | v0 from %41
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  do call "str::replace"(rv((*$6).message@Some.0), 38, "&amp;")
  do %17
  do call "str::replace"(rv(%17), 62, "&gt;")
  do %18
  do call "str::replace"(rv(%18), 39, "&#39;")
  then v0 := %34
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @3 | v0 from %41
  do call "str::replace"((*$5)[(%1.0 + n("L0"))], 38, "&amp;")
  do %26
  do call "str::replace"(rv(%26), 62, "&gt;")
  do %27
  do call "str::replace"(rv(%27), 39, "&#39;")
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %35

fn oak_diagnostic::OakDiagnosticsProvider::emit_all_diagnostics
case
  ret vnew()

fn oak_diagnostic::PlainTextEmitter::render_snippet  [private]
  takes &oak_diagnostic::PlainTextEmitter; &mut alloc::string::String; &S; &oak_vfs::line_map::LineMap; &str; &[&str]; &oak_diagnostic::Label; core::option::Option<&str>
  given oak_vfs::line_map::LineMap::line_start
  given oak_vfs::line_map::LineMap::offset_to_line_col_utf16
  let %1 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"($3, $2, (*$6).span.start)
  let %2 = (call "oak_vfs::line_map::LineMap::line_start"($3, %1.0) is Some)
  let %3 = case{!%2 => 0; %2 => call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)@Some.0}
  let %4 = true(validrange((*$4), %3, min((*$6).span.start, len((*$4)))))
  let %5 = call "oak_vfs::line_map::LineMap::offset_to_line_col_utf16"($3, $2, (*$6).span.end)
  let %6 = (call "oak_vfs::line_map::LineMap::line_start"($3, %5.0) is Some)
  let %7 = case{!%6 => 0; %6 => call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)@Some.0}
  let %8 = case{!($7 is Some) => "<anonymous>"; ($7 is Some) => $7@Some.0}
  let %9 = len(call "str::chars"(slice((*$4), %3, min((*$6).span.start, len((*$4))))))
  let %10 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %11 = true(validrange((*$4), min((*$6).span.start, len((*$4))), min((*$6).span.end, len((*$4)))))
  let %12 = call "str::repeat"("^", max(1, len(call "str::chars"(slice((*$4), min((*$6).span.start, len((*$4))), min((*$6).span.end, len((*$4))))))))
  let %13 = display('d:f28000020,w*', (%1.0 + 1), len(display('d', (%5.0 + 1))))
  let %14 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", %13, " │ ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ ", call "str::repeat"(" ", %9), %12, " ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %15 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", %13, " │ ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ ", call "str::repeat"(" ", %9), %12, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %16 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", %13, " │ ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ ", call "str::repeat"(" ", %9), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %17 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", %13, " │ ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ ", call "str::repeat"(" ", %9), call "str::repeat"("^", 1), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %18 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %19 = cat(<lv("L0", "v0"), call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %20 = display('d:f28000020,w*', (%1.0 + n("L0") + 1), len(display('d', (%5.0 + 1))))
  let %21 = cat(<lv("L0", "v0"), %20, " │ ┌", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %22 = len(call "str::chars"(slice((*$4), %7, min((*$6).span.end, len((*$4))))))
  let %23 = cat(<lv("L0", "v0"), %20, " │ │", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ └", call "str::repeat"("─", %22), call "str::repeat"("^", max(1, %22)), " ", (*$6).message@Some.0, "\n">)
  let %24 = cat(<lv("L0", "v0"), %20, " │ │", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ └", call "str::repeat"("─", %22), call "str::repeat"("^", max(1, %22)), "\n">)
  let %25 = cat(<lv("L0", "v0"), %20, " │ │", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %26 = cat(<lv("L0", "v0"), %20, " │ │", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ └", call "str::repeat"("─", 0), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "\n">)
  let %27 = cat(<lv("L0", "v0"), %20, " │ │", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ └", call "str::repeat"("─", 0), call "str::repeat"("^", 1), "\n">)
  let %28 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %29 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", %13, " │ ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ ", call "str::repeat"(" ", 0), %12, " ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %30 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", %13, " │ ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ ", call "str::repeat"(" ", 0), %12, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %31 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", %13, " │ ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ ", call "str::repeat"(" ", 0), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %32 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n", %13, " │ ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │ ", call "str::repeat"(" ", 0), call "str::repeat"("^", 1), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %33 = cat(<(*$1), "  ┌ at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " │\n">)
  let %34 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %35 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", %13, " | ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | ", call "str::repeat"(" ", %9), %12, " ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %36 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", %13, " | ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | ", call "str::repeat"(" ", %9), %12, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %37 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", %13, " | ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | ", call "str::repeat"(" ", %9), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %38 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", %13, " | ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | ", call "str::repeat"(" ", %9), call "str::repeat"("^", 1), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %39 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":", display('d', (%9 + 1)), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %40 = cat(<lv("L0", "v0"), call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %41 = cat(<lv("L0", "v0"), %20, " | /", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %42 = cat(<lv("L0", "v0"), %20, " | |", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | |", call "str::repeat"("_", %22), call "str::repeat"("^", max(1, %22)), " ", (*$6).message@Some.0, "\n">)
  let %43 = cat(<lv("L0", "v0"), %20, " | |", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | |", call "str::repeat"("_", %22), call "str::repeat"("^", max(1, %22)), "\n">)
  let %44 = cat(<lv("L0", "v0"), %20, " | |", (*$5)[(%1.0 + n("L0"))], "\n">)
  let %45 = cat(<lv("L0", "v0"), %20, " | |", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | |", call "str::repeat"("_", 0), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "\n">)
  let %46 = cat(<lv("L0", "v0"), %20, " | |", (*$5)[(%1.0 + n("L0"))], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | |", call "str::repeat"("_", 0), call "str::repeat"("^", 1), "\n">)
  let %47 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %48 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", %13, " | ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | ", call "str::repeat"(" ", 0), %12, " ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %49 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", %13, " | ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | ", call "str::repeat"(" ", 0), %12, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %50 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", %13, " | ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | ", call "str::repeat"(" ", 0), call "str::repeat"("^", 1), " ", (*$6).message@Some.0, "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %51 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n", %13, " | ", (*$5)[%1.0], "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " | ", call "str::repeat"(" ", 0), call "str::repeat"("^", 1), "\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
  let %52 = cat(<(*$1), "  / at ", %8, ":", display('d', (%1.0 + 1)), ":1\n", call "str::repeat"(" ", len(display('d', (%5.0 + 1)))), " |\n">)
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %10
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %14
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %15
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %16
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %17
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @0 | v0 from %18
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %19
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %18
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 | v0 from %18
  then v0 := %21
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @0 | v0 from %18
  do call "str::repeat"("^", max(1, %22))
  do call "str::repeat"("─", %22)
  then v0 := %23
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @0 | v0 from %18
  do call "str::repeat"("^", max(1, %22))
  do call "str::repeat"("─", %22)
  then v0 := %24
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 | v0 from %18
  then v0 := %25
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %10
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %14
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %15
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %16
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %17
  ret tup{}
case
  if true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @1 | v0 from %18
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %19
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @1 | v0 from %18
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %26
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @1 | v0 from %18
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %27
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %28
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %29
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %30
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %31
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %32
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @2 | v0 from %33
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %19
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %33
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 | v0 from %33
  then v0 := %21
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @2 | v0 from %33
  do call "str::repeat"("^", max(1, %22))
  do call "str::repeat"("─", %22)
  then v0 := %23
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @2 | v0 from %33
  do call "str::repeat"("^", max(1, %22))
  do call "str::repeat"("─", %22)
  then v0 := %24
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 | v0 from %33
  then v0 := %25
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %28
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %29
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %30
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %31
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %32
  ret tup{}
case
  if true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @3 | v0 from %33
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %19
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @3 | v0 from %33
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %26
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @3 | v0 from %33
  do call "str::repeat"("^", 1)
  do call "str::repeat"("─", 0)
  then v0 := %27
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %34
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %35
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %36
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %37
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %38
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @4 | v0 from %39
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %40
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %39
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 | v0 from %39
  then v0 := %41
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @4 | v0 from %39
  do call "str::repeat"("^", max(1, %22))
  do call "str::repeat"("_", %22)
  then v0 := %42
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @4 | v0 from %39
  do call "str::repeat"("^", max(1, %22))
  do call "str::repeat"("_", %22)
  then v0 := %43
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 | v0 from %39
  then v0 := %44
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %34
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %35
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do %12
  set $1 := %36
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %37
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", %9)
  do call "str::repeat"("^", 1)
  set $1 := %38
  ret tup{}
case
  if not true((*$0).unicode)
  if %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @5 | v0 from %39
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %40
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @5 | v0 from %39
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %45
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @5 | v0 from %39
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %46
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %47
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %48
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %49
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %50
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %51
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @6 | v0 from %52
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %40
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if not (%1.0 + n("L0") < len((*$5)))
  loop L0 | v0 from %52
  then v0 := lv("L0", "v0")
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if (n("L0") == 0)
  loop L0 | v0 from %52
  then v0 := %41
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @6 | v0 from %52
  do call "str::repeat"("^", max(1, %22))
  do call "str::repeat"("_", %22)
  then v0 := %42
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @6 | v0 from %52
  do call "str::repeat"("^", max(1, %22))
  do call "str::repeat"("_", %22)
  then v0 := %43
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if not (%1.0 + n("L0") == %5.0)
  loop L0 | v0 from %52
  then v0 := %44
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if (len((*$5)) < %1.0 + 1)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %47
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %48
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do %12
  set $1 := %49
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %50
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if (%5.0 == %1.0)
  if not (len((*$5)) < %1.0 + 1)
  if not %11
  if not ((*$6).message is Some)
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  do call "str::repeat"(" ", 0)
  do call "str::repeat"("^", 1)
  set $1 := %51
  ret tup{}
case
  if not true((*$0).unicode)
  if not %4
  if not true(validrange((*$4), %7, min((*$6).span.end, len((*$4)))))
  if not (%5.0 == %1.0)
  if not (%1.0 + n("L0") < %5.0 + 1)
  loop L0 @7 | v0 from %52
  do %1
  do %5
  do call "oak_vfs::line_map::LineMap::line_start"($3, %1.0)
  do call "oak_vfs::line_map::LineMap::line_start"($3, %5.0)
  do call "str::repeat"(" ", len(display('d', (%5.0 + 1))))
  set $1 := %40
  ret tup{}
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if ((*$6).message is Some)
  loop L0 @7 | v0 from %52
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %45
pass L0
  if (%1.0 + n("L0") < %5.0 + 1)
  if (%1.0 + n("L0") < len((*$5)))
  if not (n("L0") == 0)
  if (%1.0 + n("L0") == %5.0)
  if not ((*$6).message is Some)
  loop L0 @7 | v0 from %52
  do call "str::repeat"("^", 1)
  do call "str::repeat"("_", 0)
  then v0 := %46

fn oak_diagnostic::html_escape  [private]
  takes &str
  let %1 = call "str::replace"(rv(call "str::replace"($0, 38, "&amp;")), 60, "&lt;")
  let %2 = call "str::replace"(rv(call "str::replace"(rv(%1), 62, "&gt;")), 34, "&quot;")
case
  do call "str::replace"($0, 38, "&amp;")
  do %1
  do call "str::replace"(rv(%1), 62, "&gt;")
  do %2
  do call "str::replace"(rv(%2), 39, "&#39;")
  ret call "str::replace"(rv(%2), 39, "&#39;")
