fn <&S as oak_core::source::Source>::syntax_error
case
  do call "oak_core::source::Source::syntax_error"((*$0), $1, $2)
  ret call "oak_core::source::Source::syntax_error"((*$0), $1, $2)

fn <oak_core::errors::OakError as core::convert::From<core::io::error::Error>>::from
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" IoError{error: $0, source_id: new "core::option::Option" None{}})}

fn <oak_core::errors::OakError as core::convert::From<core::num::error::ParseIntError>>::from
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ParseError{message: display('d', $0)})}

fn <oak_core::errors::OakError as core::convert::From<core::num::float_parse::ParseFloatError>>::from
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ParseError{message: display('d', $0)})}

fn <oak_core::errors::OakError as core::convert::From<oak_core::errors::OakErrorKind>>::from
case
  ret new "oak_core::errors::OakError"{kind: box($0)}

fn <oak_core::errors::OakError as core::fmt::Display>::fmt
case
  set $1 := cat(<(*$1), display('d', (*$0).kind)>)
  ret new "core::result::Result" Ok{0: tup{}}

fn <oak_core::errors::OakErrorKind as core::clone::Clone>::clone
  let %1 = call "core::io::error::Error::new"(call "core::io::error::Error::kind"(rv((*$0)@IoError.error)), display('d', (*$0)@IoError.error))
case
  if ((*$0) is IoError)
  do call "core::io::error::Error::kind"(rv((*$0)@IoError.error))
  do %1
  ret new "oak_core::errors::OakErrorKind" IoError{error: %1, source_id: (*$0)@IoError.source_id}
case
  if ((*$0) is InternalError)
  ret new "oak_core::errors::OakErrorKind" InternalError{message: (*$0)@InternalError.message}
case
  if ((*$0) is ParseError)
  ret new "oak_core::errors::OakErrorKind" ParseError{message: (*$0)@ParseError.message}
case
  if ((*$0) is ZipError)
  ret new "oak_core::errors::OakErrorKind" ZipError{message: (*$0)@ZipError.message}
case
  if ((*$0) is XmlError)
  ret new "oak_core::errors::OakErrorKind" XmlError{message: (*$0)@XmlError.message}
case
  if ((*$0) is DeserializeError)
  ret new "oak_core::errors::OakErrorKind" DeserializeError{message: (*$0)@DeserializeError.message}
case
  if ((*$0) is SerdeError)
  ret new "oak_core::errors::OakErrorKind" SerdeError{message: (*$0)@SerdeError.message}
case
  if ((*$0) is TestRegenerated)
  ret new "oak_core::errors::OakErrorKind" TestRegenerated{path: (*$0)@TestRegenerated.path}
case
  if ((*$0) is TestFailure)
  ret new "oak_core::errors::OakErrorKind" TestFailure{path: (*$0)@TestFailure.path, expected: (*$0)@TestFailure.expected, actual: (*$0)@TestFailure.actual}
case
  if ((*$0) is TrailingCommaNotAllowed)
  ret new "oak_core::errors::OakErrorKind" TrailingCommaNotAllowed{offset: (*$0)@TrailingCommaNotAllowed.offset, source_id: (*$0)@TrailingCommaNotAllowed.source_id}
case
  if ((*$0) is ExpectedName)
  ret new "oak_core::errors::OakErrorKind" ExpectedName{name_kind: (*$0)@ExpectedName.name_kind, offset: (*$0)@ExpectedName.offset, source_id: (*$0)@ExpectedName.source_id}
case
  if ((*$0) is ExpectedToken)
  ret new "oak_core::errors::OakErrorKind" ExpectedToken{expected: (*$0)@ExpectedToken.expected, offset: (*$0)@ExpectedToken.offset, source_id: (*$0)@ExpectedToken.source_id}
case
  if ((*$0) is ProtocolError)
  ret new "oak_core::errors::OakErrorKind" ProtocolError{message: (*$0)@ProtocolError.message}
case
  if ((*$0) is SemanticError)
  ret new "oak_core::errors::OakErrorKind" SemanticError{message: (*$0)@SemanticError.message}
case
  if ((*$0) is FormatError)
  ret new "oak_core::errors::OakErrorKind" FormatError{message: (*$0)@FormatError.message}
case
  if ((*$0) is ColorParseError)
  ret new "oak_core::errors::OakErrorKind" ColorParseError{color: (*$0)@ColorParseError.color}
case
  if ((*$0) is UnsupportedFormat)
  ret new "oak_core::errors::OakErrorKind" UnsupportedFormat{format: (*$0)@UnsupportedFormat.format}
case
  if ((*$0) is InvalidTheme)
  ret new "oak_core::errors::OakErrorKind" InvalidTheme{message: (*$0)@InvalidTheme.message}
case
  if ((*$0) is CustomError)
  ret new "oak_core::errors::OakErrorKind" CustomError{message: (*$0)@CustomError.message}
case
  if ((*$0) is UnexpectedEof)
  ret new "oak_core::errors::OakErrorKind" UnexpectedEof{offset: (*$0)@UnexpectedEof.offset, source_id: (*$0)@UnexpectedEof.source_id}
case
  if ((*$0) is UnexpectedToken)
  ret new "oak_core::errors::OakErrorKind" UnexpectedToken{token: (*$0)@UnexpectedToken.token, offset: (*$0)@UnexpectedToken.offset, source_id: (*$0)@UnexpectedToken.source_id}
case
  if ((*$0) is UnexpectedCharacter)
  ret new "oak_core::errors::OakErrorKind" UnexpectedCharacter{character: (*$0)@UnexpectedCharacter.character, offset: (*$0)@UnexpectedCharacter.offset, source_id: (*$0)@UnexpectedCharacter.source_id}
case
  if ((*$0) is SyntaxError)
  ret new "oak_core::errors::OakErrorKind" SyntaxError{message: (*$0)@SyntaxError.message, offset: (*$0)@SyntaxError.offset, source_id: (*$0)@SyntaxError.source_id}

fn <oak_core::errors::OakErrorKind as core::fmt::Display>::fmt
case
  if ((*$0) is IoError)
  set $1 := cat(<(*$1), "error.io(", display('?', (*$0)@IoError.source_id), "): ", display('d', (*$0)@IoError.error)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is SyntaxError)
  set $1 := cat(<(*$1), "error.syntax", (*$0)@SyntaxError.message, ": (at ", display('?', (*$0)@SyntaxError.source_id), ":", display('d', (*$0)@SyntaxError.offset), ")">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is UnexpectedCharacter)
  set $1 := cat(<(*$1), "error.unexpected_characterunexpected character '", call "char"((*$0)@UnexpectedCharacter.character), "' at ", display('?', (*$0)@UnexpectedCharacter.source_id), ":", display('d', (*$0)@UnexpectedCharacter.offset)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is UnexpectedToken)
  set $1 := cat(<(*$1), "error.unexpected_tokenunexpected token '", (*$0)@UnexpectedToken.token, "' at ", display('?', (*$0)@UnexpectedToken.source_id), ":", display('d', (*$0)@UnexpectedToken.offset)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is UnexpectedEof)
  set $1 := cat(<(*$1), "error.unexpected_eofunexpected end of file at ", display('?', (*$0)@UnexpectedEof.source_id), ":", display('d', (*$0)@UnexpectedEof.offset)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is CustomError)
  set $1 := cat(<(*$1), "error.custom", (*$0)@CustomError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is InvalidTheme)
  set $1 := cat(<(*$1), "error.invalid_theme", (*$0)@InvalidTheme.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is UnsupportedFormat)
  set $1 := cat(<(*$1), "error.unsupported_formatunsupported format: ", (*$0)@UnsupportedFormat.format>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is ColorParseError)
  set $1 := cat(<(*$1), "error.color_parseinvalid color: ", (*$0)@ColorParseError.color>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is FormatError)
  set $1 := cat(<(*$1), "error.format", (*$0)@FormatError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is SemanticError)
  set $1 := cat(<(*$1), "error.semantic", (*$0)@SemanticError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is ProtocolError)
  set $1 := cat(<(*$1), "error.protocol", (*$0)@ProtocolError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is ExpectedToken)
  set $1 := cat(<(*$1), "error.expected_tokenexpected token '", (*$0)@ExpectedToken.expected, "' at ", display('?', (*$0)@ExpectedToken.source_id), ":", display('d', (*$0)@ExpectedToken.offset)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is ExpectedName)
  set $1 := cat(<(*$1), "error.expected_nameexpected ", (*$0)@ExpectedName.name_kind, " at ", display('?', (*$0)@ExpectedName.source_id), ":", display('d', (*$0)@ExpectedName.offset)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is TrailingCommaNotAllowed)
  set $1 := cat(<(*$1), "error.trailing_comma_not_allowedtrailing comma not allowed at ", display('?', (*$0)@TrailingCommaNotAllowed.source_id), ":", display('d', (*$0)@TrailingCommaNotAllowed.offset)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is TestFailure)
  set $1 := cat(<(*$1), "error.test_failuretest failure in ", display('?', (*$0)@TestFailure.path), ": expected ", (*$0)@TestFailure.expected, ", found ", (*$0)@TestFailure.actual>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is TestRegenerated)
  set $1 := cat(<(*$1), "error.test_regeneratedtest regenerated: ", display('?', (*$0)@TestRegenerated.path)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is SerdeError)
  set $1 := cat(<(*$1), "error.serdeserde error: ", (*$0)@SerdeError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is DeserializeError)
  set $1 := cat(<(*$1), "error.deserializedeserialization error: ", (*$0)@DeserializeError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is XmlError)
  set $1 := cat(<(*$1), "error.xmlXML error: ", (*$0)@XmlError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is ZipError)
  set $1 := cat(<(*$1), "error.zipzip error: ", (*$0)@ZipError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is ParseError)
  set $1 := cat(<(*$1), "error.parseparse error: ", (*$0)@ParseError.message>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is InternalError)
  set $1 := cat(<(*$1), "error.internalinternal error: ", (*$0)@InternalError.message>)
  ret new "core::result::Result" Ok{0: tup{}}

fn oak_core::errors::OakDiagnostics::error
case
  ret new "oak_core::errors::OakDiagnostics"{result: new "core::result::Result" Err{0: $0}, diagnostics: vnew()}

fn oak_core::errors::OakDiagnostics::has_errors
case
  if ((*$0).result is Err)
  ret 1
case
  if not ((*$0).result is Err)
  ret !(len((*$0).diagnostics) == 0)

fn oak_core::errors::OakDiagnostics::new
case
  ret new "oak_core::errors::OakDiagnostics"{result: $0, diagnostics: vnew()}

fn oak_core::errors::OakDiagnostics::success
case
  ret new "oak_core::errors::OakDiagnostics"{result: new "core::result::Result" Ok{0: $0}, diagnostics: vnew()}

fn oak_core::errors::OakError::color_parse_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ColorParseError{color: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::custom_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" CustomError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::deserialize_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" DeserializeError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::expected_name
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedName{name_kind: call "into"("alloc::string::String", $0), offset: $1, source_id: $2})}

fn oak_core::errors::OakError::expected_token
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedToken{expected: call "into"("alloc::string::String", $0), offset: $1, source_id: $2})}

fn oak_core::errors::OakError::format_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" FormatError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::internal_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" InternalError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::invalid_theme
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" InvalidTheme{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::io_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" IoError{error: $0, source_id: new "core::option::Option" Some{0: $1}})}

fn oak_core::errors::OakError::kind
case
  ret (*$0).kind

fn oak_core::errors::OakError::new
case
  ret new "oak_core::errors::OakError"{kind: box($0)}

fn oak_core::errors::OakError::parse_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ParseError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::protocol_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ProtocolError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::semantic_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" SemanticError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::serde_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" SerdeError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::syntax_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" SyntaxError{message: call "into"("alloc::string::String", $0), offset: $1, source_id: $2})}

fn oak_core::errors::OakError::test_failure
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" TestFailure{path: $0, expected: $1, actual: $2})}

fn oak_core::errors::OakError::test_regenerated
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" TestRegenerated{path: $0})}

fn oak_core::errors::OakError::trailing_comma_not_allowed
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" TrailingCommaNotAllowed{offset: $0, source_id: $1})}

fn oak_core::errors::OakError::unexpected_character
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnexpectedCharacter{character: $0, offset: $1, source_id: $2})}

fn oak_core::errors::OakError::unexpected_eof
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnexpectedEof{offset: $0, source_id: $1})}

fn oak_core::errors::OakError::unexpected_token
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnexpectedToken{token: call "into"("alloc::string::String", $0), offset: $1, source_id: $2})}

fn oak_core::errors::OakError::unsupported_format
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnsupportedFormat{format: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::with_source_id
case
  if ((*$0.kind) is IoError)
  set $0.kind := ((*$0.kind) with {@IoError.source_id: new "core::option::Option" Some{0: $1}})
  ret $0
case
  if ((*$0.kind) is InternalError)
  ret $0
case
  if ((*$0.kind) is ParseError)
  ret $0
case
  if ((*$0.kind) is ZipError)
  ret $0
case
  if ((*$0.kind) is XmlError)
  ret $0
case
  if ((*$0.kind) is DeserializeError)
  ret $0
case
  if ((*$0.kind) is SerdeError)
  ret $0
case
  if ((*$0.kind) is TestRegenerated)
  ret $0
case
  if ((*$0.kind) is TestFailure)
  ret $0
case
  if ((*$0.kind) is TrailingCommaNotAllowed)
  set $0.kind := ((*$0.kind) with {@TrailingCommaNotAllowed.source_id: new "core::option::Option" Some{0: $1}})
  ret $0
case
  if ((*$0.kind) is ExpectedName)
  set $0.kind := ((*$0.kind) with {@ExpectedName.source_id: new "core::option::Option" Some{0: $1}})
  ret $0
case
  if ((*$0.kind) is ExpectedToken)
  set $0.kind := ((*$0.kind) with {@ExpectedToken.source_id: new "core::option::Option" Some{0: $1}})
  ret $0
case
  if ((*$0.kind) is ProtocolError)
  ret $0
case
  if ((*$0.kind) is SemanticError)
  ret $0
case
  if ((*$0.kind) is FormatError)
  ret $0
case
  if ((*$0.kind) is ColorParseError)
  ret $0
case
  if ((*$0.kind) is UnsupportedFormat)
  ret $0
case
  if ((*$0.kind) is InvalidTheme)
  ret $0
case
  if ((*$0.kind) is CustomError)
  ret $0
case
  if ((*$0.kind) is UnexpectedEof)
  set $0.kind := ((*$0.kind) with {@UnexpectedEof.source_id: new "core::option::Option" Some{0: $1}})
  ret $0
case
  if ((*$0.kind) is UnexpectedToken)
  set $0.kind := ((*$0.kind) with {@UnexpectedToken.source_id: new "core::option::Option" Some{0: $1}})
  ret $0
case
  if ((*$0.kind) is UnexpectedCharacter)
  set $0.kind := ((*$0.kind) with {@UnexpectedCharacter.source_id: new "core::option::Option" Some{0: $1}})
  ret $0
case
  if ((*$0.kind) is SyntaxError)
  set $0.kind := ((*$0.kind) with {@SyntaxError.source_id: new "core::option::Option" Some{0: $1}})
  ret $0

fn oak_core::errors::OakError::xml_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" XmlError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakError::zip_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ZipError{message: call "into"("alloc::string::String", $0)})}

fn oak_core::errors::OakErrorKind::key
case
  if ((*$0) is IoError)
  ret "error.io"
case
  if ((*$0) is InternalError)
  ret "error.internal"
case
  if ((*$0) is ParseError)
  ret "error.parse"
case
  if ((*$0) is ZipError)
  ret "error.zip"
case
  if ((*$0) is XmlError)
  ret "error.xml"
case
  if ((*$0) is DeserializeError)
  ret "error.deserialize"
case
  if ((*$0) is SerdeError)
  ret "error.serde"
case
  if ((*$0) is TestRegenerated)
  ret "error.test_regenerated"
case
  if ((*$0) is TestFailure)
  ret "error.test_failure"
case
  if ((*$0) is TrailingCommaNotAllowed)
  ret "error.trailing_comma_not_allowed"
case
  if ((*$0) is ExpectedName)
  ret "error.expected_name"
case
  if ((*$0) is ExpectedToken)
  ret "error.expected_token"
case
  if ((*$0) is ProtocolError)
  ret "error.protocol"
case
  if ((*$0) is SemanticError)
  ret "error.semantic"
case
  if ((*$0) is FormatError)
  ret "error.format"
case
  if ((*$0) is ColorParseError)
  ret "error.color_parse"
case
  if ((*$0) is UnsupportedFormat)
  ret "error.unsupported_format"
case
  if ((*$0) is InvalidTheme)
  ret "error.invalid_theme"
case
  if ((*$0) is CustomError)
  ret "error.custom"
case
  if ((*$0) is UnexpectedEof)
  ret "error.unexpected_eof"
case
  if ((*$0) is UnexpectedToken)
  ret "error.unexpected_token"
case
  if ((*$0) is UnexpectedCharacter)
  ret "error.unexpected_character"
case
  if ((*$0) is SyntaxError)
  ret "error.syntax"

fn oak_core::source::Source::syntax_error
case
  do call "oak_core::source::Source::source_id"($0)
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" SyntaxError{message: call "into"("alloc::string::String", $1), offset: $2, source_id: call "oak_core::source::Source::source_id"($0)})}

fn oak_core::source::text::SourceText::expected_name
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedName{name_kind: call "into"("alloc::string::String", $1), offset: $2, source_id: (*$0).source_id})}

fn oak_core::source::text::SourceText::expected_token
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" ExpectedToken{expected: call "into"("alloc::string::String", $1), offset: $2, source_id: (*$0).source_id})}

fn oak_core::source::text::SourceText::syntax_error
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" SyntaxError{message: call "into"("alloc::string::String", $1), offset: $2, source_id: (*$0).source_id})}

fn oak_core::source::text::SourceText::trailing_comma_not_allowed
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" TrailingCommaNotAllowed{offset: $1, source_id: (*$0).source_id})}

fn oak_core::source::text::SourceText::unexpected_character
case
  ret new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" UnexpectedCharacter{character: $1, offset: $2, source_id: (*$0).source_id})}
