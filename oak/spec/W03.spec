fn <oak_lsp::server::LspError as core::convert::From<alloc::string::FromUtf8Error>>::from
case
  ret new "oak_lsp::server::LspError" Utf8{0: $0}

fn <oak_lsp::server::LspError as core::convert::From<core::io::error::Error>>::from
case
  ret new "oak_lsp::server::LspError" Io{0: $0}

fn <oak_lsp::server::LspError as core::convert::From<serde_json::error::Error>>::from
case
  ret new "oak_lsp::server::LspError" Json{0: display('d', $0)}

fn <oak_lsp::server::LspError as core::fmt::Display>::fmt
case
  if ((*$0) is Io)
  set $1 := cat(<(*$1), "IO error: ", display('d', (*$0)@Io.0)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is Other)
  set $1 := cat(<(*$1), "Other error: ", (*$0)@Other.0>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is Json)
  set $1 := cat(<(*$1), "JSON error: ", (*$0)@Json.0>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is Utf8)
  set $1 := cat(<(*$1), "UTF-8 error: ", display('d', (*$0)@Utf8.0)>)
  ret new "core::result::Result" Ok{0: tup{}}

fn <oak_lsp::types::Location as core::convert::From<oak_lsp::types::LocationRange>>::from
case
  ret new "oak_lsp::types::Location"{uri: $0.uri, range: $0.range}

fn <oak_lsp::types::Location as core::convert::From<oak_navigation::Location>>::from
case
  ret new "oak_lsp::types::Location"{uri: $0.uri, range: $0.range}

fn <oak_lsp::types::LocationRange as core::convert::From<oak_lsp::types::Location>>::from
case
  ret new "oak_lsp::types::LocationRange"{uri: $0.uri, range: $0.range}

fn <oak_lsp::types::LocationRange as core::convert::From<oak_navigation::Location>>::from
case
  ret new "oak_lsp::types::LocationRange"{uri: $0.uri, range: $0.range}

fn <oak_lsp::types::SourceLocation as core::default::Default>::default
case
  ret new "oak_lsp::types::SourceLocation"{line: 1, column: 1, url: new "core::option::Option" None{}}

fn <oak_lsp::types::StructureItem as core::convert::From<oak_symbols::SymbolInformation>>::from
  let %1 = new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" Function{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
  let %2 = new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" Variable{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
  let %3 = new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" Property{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
case
  if ($0.role is Root)
  ret new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" File{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
case
  if ($0.role is Container)
  ret new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" Module{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
case
  if ($0.role is Definition)
  ret %1
case
  if ($0.role is Binding)
  ret %2
case
  if ($0.role is Reference)
  ret %2
case
  if ($0.role is Typing)
  ret new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" Class{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
case
  if ($0.role is Documentation)
  ret new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" String{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
case
  if ($0.role is Metadata)
  ret %3
case
  if ($0.role is Attribute)
  ret %3
case
  if ($0.role is AttributeKey)
  ret %1
case
  if ($0.role is Detail)
  ret %1
case
  if ($0.role is Name)
  ret %1
case
  if ($0.role is Statement)
  ret %1
case
  if ($0.role is Expression)
  ret %2
case
  if ($0.role is Call)
  ret %1
case
  if ($0.role is Value)
  ret new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" Constant{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
case
  if ($0.role is Embedded)
  ret %1
case
  if ($0.role is Error)
  ret new "oak_lsp::types::StructureItem"{name: $0.name, detail: new "core::option::Option" None{}, role: $0.role, kind: new "oak_lsp::types::SymbolKind" Null{}, range: $0.range, selection_range: $0.range, deprecated: 0, children: vnew()}
case
  if ($0.role is None)
  ret %1

fn <oak_lsp::types::SymbolKind as core::convert::From<oak_core::language::UniversalElementRole>>::from
case
  if ($0 is Root)
  ret new "oak_lsp::types::SymbolKind" File{}
case
  if ($0 is None)
  ret new "oak_lsp::types::SymbolKind" Function{}
case
  if ($0 is Error)
  ret new "oak_lsp::types::SymbolKind" Null{}
case
  if ($0 is Embedded)
  ret new "oak_lsp::types::SymbolKind" Function{}
case
  if ($0 is Value)
  ret new "oak_lsp::types::SymbolKind" Constant{}
case
  if ($0 is Call)
  ret new "oak_lsp::types::SymbolKind" Function{}
case
  if ($0 is Expression)
  ret new "oak_lsp::types::SymbolKind" Variable{}
case
  if ($0 is Statement)
  ret new "oak_lsp::types::SymbolKind" Function{}
case
  if ($0 is Name)
  ret new "oak_lsp::types::SymbolKind" Function{}
case
  if ($0 is Detail)
  ret new "oak_lsp::types::SymbolKind" Function{}
case
  if ($0 is AttributeKey)
  ret new "oak_lsp::types::SymbolKind" Function{}
case
  if ($0 is Attribute)
  ret new "oak_lsp::types::SymbolKind" Property{}
case
  if ($0 is Metadata)
  ret new "oak_lsp::types::SymbolKind" Property{}
case
  if ($0 is Documentation)
  ret new "oak_lsp::types::SymbolKind" String{}
case
  if ($0 is Typing)
  ret new "oak_lsp::types::SymbolKind" Class{}
case
  if ($0 is Reference)
  ret new "oak_lsp::types::SymbolKind" Variable{}
case
  if ($0 is Binding)
  ret new "oak_lsp::types::SymbolKind" Variable{}
case
  if ($0 is Definition)
  ret new "oak_lsp::types::SymbolKind" Function{}
case
  if ($0 is Container)
  ret new "oak_lsp::types::SymbolKind" Module{}

fn <oak_lsp::types::WorkspaceSymbol as core::convert::From<oak_symbols::SymbolInformation>>::from
  let %1 = new "oak_lsp::types::LocationRange"{uri: $0.uri, range: $0.range}
  let %2 = new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" Function{}, location: %1, container_name: $0.container_name}
  let %3 = new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" Variable{}, location: %1, container_name: $0.container_name}
  let %4 = new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" Property{}, location: %1, container_name: $0.container_name}
case
  if ($0.role is Root)
  ret new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" File{}, location: %1, container_name: $0.container_name}
case
  if ($0.role is Container)
  ret new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" Module{}, location: %1, container_name: $0.container_name}
case
  if ($0.role is Definition)
  ret %2
case
  if ($0.role is Binding)
  ret %3
case
  if ($0.role is Reference)
  ret %3
case
  if ($0.role is Typing)
  ret new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" Class{}, location: %1, container_name: $0.container_name}
case
  if ($0.role is Documentation)
  ret new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" String{}, location: %1, container_name: $0.container_name}
case
  if ($0.role is Metadata)
  ret %4
case
  if ($0.role is Attribute)
  ret %4
case
  if ($0.role is AttributeKey)
  ret %2
case
  if ($0.role is Detail)
  ret %2
case
  if ($0.role is Name)
  ret %2
case
  if ($0.role is Statement)
  ret %2
case
  if ($0.role is Expression)
  ret %3
case
  if ($0.role is Call)
  ret %2
case
  if ($0.role is Value)
  ret new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" Constant{}, location: %1, container_name: $0.container_name}
case
  if ($0.role is Embedded)
  ret %2
case
  if ($0.role is Error)
  ret new "oak_lsp::types::WorkspaceSymbol"{name: $0.name, kind: new "oak_lsp::types::SymbolKind" Null{}, location: %1, container_name: $0.container_name}
case
  if ($0.role is None)
  ret %2

fn oak_lsp::server::LspServer::new
case
  ret new "oak_lsp::server::LspServer"{_service: $0}

fn oak_lsp::server::LspServer::run
case
  ret clo('oak_lsp::server::LspServer::run::{closure#0}', <$0, $1, $2>)

fn oak_lsp::server::LspServer::run::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::result::Result" Ok{0: tup{}}
