fn <oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::name
case
  if ((*$0) is Root)
  ret "source"
case
  if ((*$0) is None)
  ret "none"
case
  if ((*$0) is Error)
  ret "invalid"
case
  if ((*$0) is Embedded)
  ret "meta.embedded"
case
  if ((*$0) is Value)
  ret "constant"
case
  if ((*$0) is Call)
  ret "entity.name.function.call"
case
  if ((*$0) is Expression)
  ret "meta.expression"
case
  if ((*$0) is Statement)
  ret "meta.statement"
case
  if ((*$0) is Name)
  ret "entity.name"
case
  if ((*$0) is Detail)
  ret "meta.detail"
case
  if ((*$0) is AttributeKey)
  ret "entity.other.attribute-name.key"
case
  if ((*$0) is Attribute)
  ret "entity.other.attribute-name"
case
  if ((*$0) is Metadata)
  ret "meta.preprocessor"
case
  if ((*$0) is Documentation)
  ret "comment.block.documentation"
case
  if ((*$0) is Typing)
  ret "entity.name.type"
case
  if ((*$0) is Reference)
  ret "variable.other.usage"
case
  if ((*$0) is Binding)
  ret "variable.other.declaration"
case
  if ((*$0) is Definition)
  ret "entity.name.function"
case
  if ((*$0) is Container)
  ret "meta.block"

fn <oak_core::language::UniversalElementRole as oak_core::language::ElementRole>::universal
case
  ret (*$0)

fn <oak_core::language::UniversalTokenRole as oak_core::language::TokenRole>::name
case
  if ((*$0) is Keyword)
  ret "keyword"
case
  if ((*$0) is Eof)
  ret "punctuation.eof"
case
  if ((*$0) is None)
  ret "none"
case
  if ((*$0) is Error)
  ret "invalid"
case
  if ((*$0) is Whitespace)
  ret "punctuation.whitespace"
case
  if ((*$0) is Comment)
  ret "comment"
case
  if ((*$0) is Punctuation)
  ret "punctuation"
case
  if ((*$0) is Operator)
  ret "keyword.operator"
case
  if ((*$0) is Escape)
  ret "constant.character.escape"
case
  if ((*$0) is Literal)
  ret "constant"
case
  if ((*$0) is Name)
  ret "variable.other"

fn <oak_core::language::UniversalTokenRole as oak_core::language::TokenRole>::universal
case
  ret (*$0)

fn oak_core::helpers::create_file
  let %1 = call "std::fs::create_dir_all"(call "std::path::Path::parent"($0)@Some.0)
  let %2 = new "core::result::Result" Err{0: new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" CustomError{message: call "into"("alloc::string::String", display('d', call "std::fs::File::create"($0)@Err.0))})}}
  let %3 = new "core::result::Result" Ok{0: call "std::fs::File::create"($0)@Ok.0}
case
  if (call "std::path::Path::parent"($0) is Some)
  if (%1 is Err)
  do call "std::path::Path::parent"($0)
  do %1
  ret new "core::result::Result" Err{0: new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" CustomError{message: call "into"("alloc::string::String", display('d', %1@Err.0))})}}
case
  if (call "std::path::Path::parent"($0) is Some)
  if not (%1 is Err)
  if (call "std::fs::File::create"($0) is Err)
  do call "std::path::Path::parent"($0)
  do %1
  do call "std::fs::File::create"($0)
  ret %2
case
  if (call "std::path::Path::parent"($0) is Some)
  if not (%1 is Err)
  if not (call "std::fs::File::create"($0) is Err)
  do call "std::path::Path::parent"($0)
  do %1
  do call "std::fs::File::create"($0)
  ret %3
case
  if not (call "std::path::Path::parent"($0) is Some)
  if (call "std::fs::File::create"($0) is Err)
  do call "std::path::Path::parent"($0)
  do call "std::fs::File::create"($0)
  ret %2
case
  if not (call "std::path::Path::parent"($0) is Some)
  if not (call "std::fs::File::create"($0) is Err)
  do call "std::path::Path::parent"($0)
  do call "std::fs::File::create"($0)
  ret %3

fn oak_core::helpers::open_file
case
  if (call "std::fs::File::open"($0) is Err)
  do call "std::fs::File::open"($0)
  do call "std::path::Path::display"($0)
  ret new "core::result::Result" Err{0: new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" CustomError{message: call "into"("alloc::string::String", cat(<"failed to open file ", display('d', call "std::path::Path::display"($0)), ": ", display('d', call "std::fs::File::open"($0)@Err.0)>))})}}
case
  if not (call "std::fs::File::open"($0) is Err)
  do call "std::fs::File::open"($0)
  ret new "core::result::Result" Ok{0: call "std::fs::File::open"($0)@Ok.0}

fn oak_core::helpers::source_from_path
case
  if (call "std::fs::read_to_string"($0) is Err)
  do call "std::fs::read_to_string"($0)
  do call "std::path::Path::display"($0)
  ret new "core::result::Result" Err{0: new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" CustomError{message: call "into"("alloc::string::String", cat(<"failed to read file ", display('d', call "std::path::Path::display"($0)), ": ", display('d', call "std::fs::read_to_string"($0)@Err.0)>))})}}
case
  if not (call "std::fs::read_to_string"($0) is Err)
  do call "std::fs::read_to_string"($0)
  ret new "core::result::Result" Ok{0: new "oak_core::source::text::SourceText"{source_id: new "core::option::Option" None{}, raw: call "std::fs::read_to_string"($0)@Ok.0}}

fn oak_core::language::ElementType::is_error
case
  do call "oak_core::language::ElementType::is_universal"($0, new "oak_core::language::UniversalElementRole" Error{})
  ret call "oak_core::language::ElementType::is_universal"($0, new "oak_core::language::UniversalElementRole" Error{})

fn oak_core::language::ElementType::is_role
case
  do call "oak_core::language::ElementType::role"($0)
  ret ($1 === call "oak_core::language::ElementType::role"($0))

fn oak_core::language::ElementType::is_root
case
  do call "oak_core::language::ElementType::is_universal"($0, new "oak_core::language::UniversalElementRole" Root{})
  ret call "oak_core::language::ElementType::is_universal"($0, new "oak_core::language::UniversalElementRole" Root{})

fn oak_core::language::ElementType::is_universal
  let %1 = call "core::intrinsics::discriminant_value"(rv(call "oak_core::language::ElementRole::universal"(rv(call "oak_core::language::ElementType::role"($0)))))
case
  do call "oak_core::language::ElementType::role"($0)
  do call "oak_core::language::ElementRole::universal"(rv(call "oak_core::language::ElementType::role"($0)))
  do %1
  do call "core::intrinsics::discriminant_value"(rv($1))
  ret (%1 == call "core::intrinsics::discriminant_value"(rv($1)))

fn oak_core::language::TokenType::is_comment
case
  do call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Comment{})
  ret call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Comment{})

fn oak_core::language::TokenType::is_end_of_stream
case
  ret ($0 === const('oak_core::language::TokenType::END_OF_STREAM', <'Self'>))

fn oak_core::language::TokenType::is_error
case
  do call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Error{})
  ret call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Error{})

fn oak_core::language::TokenType::is_ignored
case
  if true(call "oak_core::language::TokenType::is_whitespace"($0))
  do call "oak_core::language::TokenType::is_whitespace"($0)
  ret 1
case
  if not true(call "oak_core::language::TokenType::is_whitespace"($0))
  do call "oak_core::language::TokenType::is_whitespace"($0)
  do call "oak_core::language::TokenType::is_comment"($0)
  ret call "oak_core::language::TokenType::is_comment"($0)

fn oak_core::language::TokenType::is_role
case
  do call "oak_core::language::TokenType::role"($0)
  ret ($1 === call "oak_core::language::TokenType::role"($0))

fn oak_core::language::TokenType::is_universal
  let %1 = call "core::intrinsics::discriminant_value"(rv(call "oak_core::language::TokenRole::universal"(rv(call "oak_core::language::TokenType::role"($0)))))
case
  do call "oak_core::language::TokenType::role"($0)
  do call "oak_core::language::TokenRole::universal"(rv(call "oak_core::language::TokenType::role"($0)))
  do %1
  do call "core::intrinsics::discriminant_value"(rv($1))
  ret (call "core::intrinsics::discriminant_value"(rv($1)) == %1)

fn oak_core::language::TokenType::is_whitespace
case
  do call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Whitespace{})
  ret call "oak_core::language::TokenType::is_universal"($0, new "oak_core::language::UniversalTokenRole" Whitespace{})
