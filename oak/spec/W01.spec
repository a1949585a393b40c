fn oak_lsp::service::LanguageService::code_action
case
  ret clo('oak_lsp::service::LanguageService::code_action::{closure#0}', <>)

fn oak_lsp::service::LanguageService::code_action::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::completion
case
  ret clo('oak_lsp::service::LanguageService::completion::{closure#0}', <>)

fn oak_lsp::service::LanguageService::completion::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::definition
case
  ret clo('oak_lsp::service::LanguageService::definition::{closure#0}', <$0, (*$1), $2.start>)

fn oak_lsp::service::LanguageService::definition::{closure#0}  [private]
  takes core::future::ResumeTy
  given oak_core::tree::red_tree::RedNode::child_at_offset
  given oak_core::tree::red_tree::RedNode::span
  given oak_lsp::service::LanguageService::get_root
  given oak_lsp::service::LanguageService::get_source
  let %1 = call "oak_lsp::service::LanguageService::get_root"($0.0, rv($0.1))
  let %2 = call "oak_lsp::service::LanguageService::get_source"($0.0, rv($0.1))
  let %3 = call "oak_core::tree::red_tree::RedNode::child_at_offset"(rv(call "await"(%1)@Some.0), $0.2)
  let %4 = call "oak_core::language::ElementType::role"(rv((*%3@Some.0@Node.0.green).kind))
  let %5 = call "core::intrinsics::discriminant_value"(rv(call "oak_core::language::ElementRole::universal"(rv(%4))))
  let %6 = (call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{})) == %5)
  let %7 = rv((*call "oak_lsp::service::LanguageService::workspace"($0.0)).symbols)
  let %8 = call "oak_core::tree::red_tree::RedNode::span"(rv(%3@Some.0@Node.0))
  let %9 = call "oak_core::source::Source::get_text_in"(rv(%2@Some.0), %8)
  let %10 = (call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%9)) is Some)
  let %11 = call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%9))@Some.0
  let %12 = rv((*call "oak_lsp::service::LanguageService::workspace"($0.0)).resolver)
  let %13 = call "<oak_resolver::StandardResolver as oak_resolver::ModuleResolver>::resolve"(%12, rv($0.1), rv(%9))
  let %14 = call "into"("core::range::Range<usize>", new "range"{start: 0, end: 0})
  let %15 = call "oak_core::language::ElementType::role"(rv((*call "await"(%1)@Some.0.green).kind))
  let %16 = call "core::intrinsics::discriminant_value"(rv(call "oak_core::language::ElementRole::universal"(rv(%15))))
  let %17 = (%16 == call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{})))
  let %18 = call "oak_core::tree::red_tree::RedNode::span"(rv(call "await"(%1)@Some.0))
  let %19 = call "oak_core::source::Source::get_text_in"(rv(%2@Some.0), %18)
  let %20 = (call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%19)) is Some)
  let %21 = call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%19))@Some.0
  let %22 = call "<oak_resolver::StandardResolver as oak_resolver::ModuleResolver>::resolve"(%12, rv($0.1), rv(%19))
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if (%3 is Some)
  if (%3@Some.0 is Leaf)
  do %1
  do call "await"(%1)
  do %2
  do %3
  ret vpush(vnew(), new "oak_lsp::types::LocationRange"{uri: $0.1, range: %3@Some.0@Leaf.0.span})
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if (%3 is Some)
  if not (%3@Some.0 is Leaf)
  if %6
  if %10
  do %1
  do call "await"(%1)
  do %2
  do %3
  do %4
  do call "oak_core::language::ElementRole::universal"(rv(%4))
  do %5
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{}))
  do %8
  do %9
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%9))
  ret vpush(vnew(), new "oak_lsp::types::LocationRange"{uri: %11.uri, range: %11.range})
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if (%3 is Some)
  if not (%3@Some.0 is Leaf)
  if %6
  if not %10
  if (%13 is Some)
  do %1
  do call "await"(%1)
  do %2
  do %3
  do %4
  do call "oak_core::language::ElementRole::universal"(rv(%4))
  do %5
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{}))
  do %8
  do %9
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%9))
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do %13
  ret vpush(vnew(), new "oak_lsp::types::LocationRange"{uri: %13@Some.0, range: %14})
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if (%3 is Some)
  if not (%3@Some.0 is Leaf)
  if %6
  if not %10
  if not (%13 is Some)
  do %1
  do call "await"(%1)
  do %2
  do %3
  do %4
  do call "oak_core::language::ElementRole::universal"(rv(%4))
  do %5
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{}))
  do %8
  do %9
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%9))
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do %13
  ret vnew()
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if (%3 is Some)
  if not (%3@Some.0 is Leaf)
  if not %6
  do %1
  do call "await"(%1)
  do %2
  do %3
  do %4
  do call "oak_core::language::ElementRole::universal"(rv(%4))
  do %5
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{}))
  ret vnew()
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if not (%3 is Some)
  if %17
  if %20
  do %1
  do call "await"(%1)
  do %2
  do %3
  do %15
  do call "oak_core::language::ElementRole::universal"(rv(%15))
  do %16
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{}))
  do %18
  do %19
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%19))
  ret vpush(vnew(), new "oak_lsp::types::LocationRange"{uri: %21.uri, range: %21.range})
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if not (%3 is Some)
  if %17
  if not %20
  if (%22 is Some)
  do %1
  do call "await"(%1)
  do %2
  do %3
  do %15
  do call "oak_core::language::ElementRole::universal"(rv(%15))
  do %16
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{}))
  do %18
  do %19
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%19))
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do %22
  ret vpush(vnew(), new "oak_lsp::types::LocationRange"{uri: %22@Some.0, range: %14})
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if not (%3 is Some)
  if %17
  if not %20
  if not (%22 is Some)
  do %1
  do call "await"(%1)
  do %2
  do %3
  do %15
  do call "oak_core::language::ElementRole::universal"(rv(%15))
  do %16
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{}))
  do %18
  do %19
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do call "oak_resolver::GlobalSymbolTable::lookup"(%7, rv(%19))
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do %22
  ret vnew()
case
  if (call "await"(%1) is Some)
  if (%2 is Some)
  if not (%3 is Some)
  if not %17
  do %1
  do call "await"(%1)
  do %2
  do %3
  do %15
  do call "oak_core::language::ElementRole::universal"(rv(%15))
  do %16
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Reference{}))
  ret vnew()
case
  if (call "await"(%1) is Some)
  if not (%2 is Some)
  do %1
  do call "await"(%1)
  do %2
  ret vnew()
case
  if not (call "await"(%1) is Some)
  do %1
  do call "await"(%1)
  ret vnew()

fn oak_lsp::service::LanguageService::diagnostics
case
  ret clo('oak_lsp::service::LanguageService::diagnostics::{closure#0}', <>)

fn oak_lsp::service::LanguageService::diagnostics::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::did_close
case
  ret clo('oak_lsp::service::LanguageService::did_close::{closure#0}', <>)

fn oak_lsp::service::LanguageService::did_close::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret tup{}

fn oak_lsp::service::LanguageService::did_save
case
  ret clo('oak_lsp::service::LanguageService::did_save::{closure#0}', <>)

fn oak_lsp::service::LanguageService::did_save::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret tup{}

fn oak_lsp::service::LanguageService::document_highlight
case
  ret clo('oak_lsp::service::LanguageService::document_highlight::{closure#0}', <>)

fn oak_lsp::service::LanguageService::document_highlight::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::document_symbols
case
  ret clo('oak_lsp::service::LanguageService::document_symbols::{closure#0}', <$0, (*$1)>)

fn oak_lsp::service::LanguageService::document_symbols::{closure#0}  [private]
  takes core::future::ResumeTy
  given <oak_lsp::types::StructureItem as core::convert::From<oak_symbols::SymbolInformation>>::from
  given oak_lsp::service::LanguageService::get_root
  given oak_lsp::service::LanguageService::get_source
  let %1 = call "oak_lsp::service::LanguageService::get_source"($0.0, rv($0.1))
  let %2 = call "oak_lsp::service::LanguageService::get_root"($0.0, rv($0.1))
  let %3 = call "oak_resolver::GlobalSymbolTable::query_file"(rv((*call "oak_lsp::service::LanguageService::workspace"($0.0)).symbols), rv($0.1))
  let %4 = call "<oak_lsp::types::StructureItem as core::convert::From<oak_symbols::SymbolInformation>>::from"(%3[n("L0")])
case
  if (%1 is Some)
  if (call "await"(%2) is Some)
  if (len(%3) == 0)
  do %1
  do %2
  do call "await"(%2)
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do %3
  ret vnew()
case
  if (%1 is Some)
  if (call "await"(%2) is Some)
  if not (len(%3) == 0)
  if (len(%3) < n("L0") + 1)
  loop L0 | v0 from vnew()
  do %1
  do %2
  do call "await"(%2)
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do %3
  ret lv("L0", "v0")
pass L0
  if not (len(%3) < n("L0") + 1)
  loop L0 | v0 from vnew()
  do %4
  then v0 := vpush(lv("L0", "v0"), %4)
case
  if (%1 is Some)
  if not (call "await"(%2) is Some)
  do %1
  do %2
  do call "await"(%2)
  ret vnew()
case
  if not (%1 is Some)
  do %1
  ret vnew()

fn oak_lsp::service::LanguageService::folding_ranges
case
  ret clo('oak_lsp::service::LanguageService::folding_ranges::{closure#0}', <>)

fn oak_lsp::service::LanguageService::folding_ranges::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::formatting
case
  ret clo('oak_lsp::service::LanguageService::formatting::{closure#0}', <>)

fn oak_lsp::service::LanguageService::formatting::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::get_root
case
  ret clo('oak_lsp::service::LanguageService::get_root::{closure#0}', <>)

fn oak_lsp::service::LanguageService::get_root::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::option::Option" None{}

fn oak_lsp::service::LanguageService::get_source
case
  do call "oak_lsp::service::LanguageService::vfs"($0)
  do call "oak_vfs::Vfs::get_source"(call "oak_lsp::service::LanguageService::vfs"($0), $1)
  ret call "oak_vfs::Vfs::get_source"(call "oak_lsp::service::LanguageService::vfs"($0), $1)

fn oak_lsp::service::LanguageService::hover
case
  ret clo('oak_lsp::service::LanguageService::hover::{closure#0}', <>)

fn oak_lsp::service::LanguageService::hover::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::option::Option" None{}

fn oak_lsp::service::LanguageService::implementation
case
  ret clo('oak_lsp::service::LanguageService::implementation::{closure#0}', <>)

fn oak_lsp::service::LanguageService::implementation::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::initialize
case
  ret clo('oak_lsp::service::LanguageService::initialize::{closure#0}', <>)

fn oak_lsp::service::LanguageService::initialize::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret tup{}

fn oak_lsp::service::LanguageService::initialized
case
  ret clo('oak_lsp::service::LanguageService::initialized::{closure#0}', <>)

fn oak_lsp::service::LanguageService::initialized::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret tup{}

fn oak_lsp::service::LanguageService::inlay_hint
case
  ret clo('oak_lsp::service::LanguageService::inlay_hint::{closure#0}', <>)

fn oak_lsp::service::LanguageService::inlay_hint::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::list_all_files
case
  ret clo('oak_lsp::service::LanguageService::list_all_files::{closure#0}', <$1, $0>)

fn oak_lsp::service::LanguageService::list_all_files::{closure#0}  [private]
  takes core::future::ResumeTy
  let %1 = call "oak_vfs::Vfs::is_file"(call "oak_lsp::service::LanguageService::vfs"($0.1), lv("L0", "v1")[(len(lv("L0", "v1")) - 1)])
  let %2 = call "oak_vfs::Vfs::is_dir"(call "oak_lsp::service::LanguageService::vfs"($0.1), lv("L0", "v1")[(len(lv("L0", "v1")) - 1)])
  let %3 = call "oak_vfs::Vfs::read_dir"(call "oak_lsp::service::LanguageService::vfs"($0.1), lv("L0", "v1")[(len(lv("L0", "v1")) - 1)])
case
  if (len(lv("L0", "v1")) == 0)
  loop L0 | v0 from vnew() | v1 from vpush(vnew(), $0.0)
  ret lv("L0", "v0")
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if true(%1)
  loop L0 | v0 from vnew() | v1 from vpush(vnew(), $0.0)
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %1
  then v0 := vpush(lv("L0", "v0"), lv("L0", "v1")[(len(lv("L0", "v1")) - 1)])
  then v1 := vpop(lv("L0", "v1"))
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if not true(%1)
  if true(%2)
  if (%3 is Some)
  loop L0 | v0 from vnew() | v1 from vpush(vnew(), $0.0)
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %1
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %2
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %3
  then v0 := lv("L0", "v0")
  then v1 := vcat(vpop(lv("L0", "v1")), %3@Some.0)
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if not true(%1)
  if true(%2)
  if not (%3 is Some)
  loop L0 | v0 from vnew() | v1 from vpush(vnew(), $0.0)
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %1
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %2
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %3
  then v0 := lv("L0", "v0")
  then v1 := vpop(lv("L0", "v1"))
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if not true(%1)
  if not true(%2)
  loop L0 | v0 from vnew() | v1 from vpush(vnew(), $0.0)
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %1
  do call "oak_lsp::service::LanguageService::vfs"($0.1)
  do %2
  then v0 := lv("L0", "v0")
  then v1 := vpop(lv("L0", "v1"))

fn oak_lsp::service::LanguageService::range_formatting
case
  ret clo('oak_lsp::service::LanguageService::range_formatting::{closure#0}', <>)

fn oak_lsp::service::LanguageService::range_formatting::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::references
case
  ret clo('oak_lsp::service::LanguageService::references::{closure#0}', <>)

fn oak_lsp::service::LanguageService::references::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::rename
case
  ret clo('oak_lsp::service::LanguageService::rename::{closure#0}', <>)

fn oak_lsp::service::LanguageService::rename::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::option::Option" None{}

fn oak_lsp::service::LanguageService::selection_range
case
  ret clo('oak_lsp::service::LanguageService::selection_range::{closure#0}', <>)

fn oak_lsp::service::LanguageService::selection_range::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::semantic_tokens
case
  ret clo('oak_lsp::service::LanguageService::semantic_tokens::{closure#0}', <>)

fn oak_lsp::service::LanguageService::semantic_tokens::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::option::Option" None{}

fn oak_lsp::service::LanguageService::shutdown
case
  ret clo('oak_lsp::service::LanguageService::shutdown::{closure#0}', <>)

fn oak_lsp::service::LanguageService::shutdown::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret tup{}

fn oak_lsp::service::LanguageService::signature_help
case
  ret clo('oak_lsp::service::LanguageService::signature_help::{closure#0}', <>)

fn oak_lsp::service::LanguageService::signature_help::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::option::Option" None{}

fn oak_lsp::service::LanguageService::type_definition
case
  ret clo('oak_lsp::service::LanguageService::type_definition::{closure#0}', <>)

fn oak_lsp::service::LanguageService::type_definition::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret vnew()

fn oak_lsp::service::LanguageService::with_root
case
  ret clo('oak_lsp::service::LanguageService::with_root::{closure#0}', <$0, $1, $2>)

fn oak_lsp::service::LanguageService::with_root::{closure#0}  [private]
  takes core::future::ResumeTy
  let %1 = call "oak_lsp::service::LanguageService::get_root"($0.0, $0.1)
  let %2 = call "core::ops::function::FnOnce::call_once"($0.2, tup{0: call "await"(%1)@Some.0})
case
  if (call "await"(%1) is Some)
  do %1
  do call "await"(%1)
  do %2
  ret new "core::option::Option" Some{0: %2}
case
  if not (call "await"(%1) is Some)
  do %1
  do call "await"(%1)
  ret new "core::option::Option" None{}

fn oak_lsp::service::LanguageService::with_roots
case
  if not (n("L0") < len($1))
  loop L0 | v0 from vnew()
  ret clo('oak_lsp::service::LanguageService::with_roots::{closure#1}', <lv("L0", "v0")>)
pass L0
  if (n("L0") < len($1))
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), clo('oak_lsp::service::LanguageService::with_roots::{closure#0}', <$0, $1[n("L0")], box($2)>))

fn oak_lsp::service::LanguageService::with_roots::{closure#0}  [private]
  takes core::future::ResumeTy
  let %1 = call "oak_lsp::service::LanguageService::get_root"($0.0, rv($0.1))
  let %2 = call "core::ops::function::Fn::call"($0.2, tup{0: call "await"(%1)@Some.0})
case
  if (call "await"(%1) is Some)
  do %1
  do call "await"(%1)
  do %2
  ret new "core::option::Option" Some{0: %2}
case
  if not (call "await"(%1) is Some)
  do %1
  do call "await"(%1)
  ret new "core::option::Option" None{}

fn oak_lsp::service::LanguageService::with_roots::{closure#1}  [private]
  takes core::future::ResumeTy
  let %1 = call "<alloc::vec::Vec as core::iter::traits::collect::IntoIterator>::into_iter"(call "await"(call "futures_util::future::join_all::join_all"($0.0)))
case
  do call "futures_util::future::join_all::join_all"($0.0)
  do call "await"(call "futures_util::future::join_all::join_all"($0.0))
  do %1
  ret call "Iterator::flatten"(%1)

fn oak_lsp::service::LanguageService::workspace_symbols
case
  ret clo('oak_lsp::service::LanguageService::workspace_symbols::{closure#0}', <$0, $1>)

fn oak_lsp::service::LanguageService::workspace_symbols::{closure#0}  [private]
  takes core::future::ResumeTy
  given <oak_lsp::types::WorkspaceSymbol as core::convert::From<oak_symbols::SymbolInformation>>::from
  let %1 = call "oak_resolver::GlobalSymbolTable::query"(rv((*call "oak_lsp::service::LanguageService::workspace"($0.0)).symbols), rv($0.1))
  let %2 = call "<oak_lsp::types::WorkspaceSymbol as core::convert::From<oak_symbols::SymbolInformation>>::from"(%1[n("L0")])
case
  if not (n("L0") < len(%1))
  loop L0 | v0 from vnew()
  do call "oak_lsp::service::LanguageService::workspace"($0.0)
  do %1
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len(%1))
  loop L0 | v0 from vnew()
  do %2
  then v0 := vpush(lv("L0", "v0"), %2)
