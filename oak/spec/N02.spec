fn <oak_navigation::SimpleReferenceFinder as oak_core::visitor::Visitor<L>>::visit_node
case
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret tup{}

fn <oak_navigation::SimpleReferenceFinder as oak_core::visitor::Visitor<L>>::visit_token
  let %1 = call "oak_core::language::TokenType::is_universal"(rv($1.kind), new "oak_core::language::UniversalTokenRole" Name{})
  let %2 = ((*$0).name === slice((*(*$0).source), $1.span.start, $1.span.end))
case
  if true(%1)
  if %2
  do %1
  set $0 := ((*$0) with {references: vpush((*$0).references, new "oak_navigation::Location"{uri: (*$0).uri, range: $1.span})})
  ret tup{}
case
  if true(%1)
  if not %2
  do %1
  ret tup{}
case
  if not true(%1)
  do %1
  ret tup{}

fn <oak_symbols::UniversalSymbolProvider as core::default::Default>::default
case
  ret const('?', 'oak_symbols::UniversalSymbolProvider')

fn <oak_symbols::UniversalSymbolProvider as oak_symbols::SymbolProvider<L>>::document_symbols
  given oak_symbols::UniversalSymbolProvider::collect_symbols
  let %1 = call "oak_symbols::UniversalSymbolProvider::collect_symbols"($0, $1, $2, rv(vnew()), new "core::option::Option" None{}, $3)
case
  do %1
  ret post(3, %1)

fn oak_folding::FoldingProvider::folding_ranges
case
  ret vnew()

fn oak_navigation::SimpleReferenceFinder::find
  let %1 = call "oak_core::visitor::Visitor::walk_node"(rv(new "oak_navigation::SimpleReferenceFinder"{name: $1, source: $2, uri: $3, references: vnew(), _phantom: new "core::marker::PhantomData"{}}), (*$0))
case
  do %1
  ret post(0, %1).references

fn oak_symbols::SymbolProvider::workspace_symbols
case
  ret vnew()

fn oak_symbols::UniversalSymbolProvider::collect_symbols  [private]
  takes &oak_symbols::UniversalSymbolProvider; &str; &oak_core::tree::red_tree::RedNode<, L>; &mut alloc::vec::Vec<oak_symbols::SymbolInformation>; core::option::Option<alloc::string::String>; &S
  let %1 = call "oak_core::language::ElementType::role"(rv((*(*$2).green).kind))
  let %2 = call "core::intrinsics::discriminant_value"(rv(call "oak_core::language::ElementRole::universal"(rv(%1))))
  let %3 = (%2 == call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Definition{})))
  let %4 = new "range"{start: (*$2).offset, end: ((*$2).offset + (*(*$2).green).text_len)}
  let %5 = vpush((*$3), new "oak_symbols::SymbolInformation"{name: cat(<"<", display('?', (*(*$2).green).kind), ">">), role: call "oak_core::language::ElementRole::universal"(rv(%1)), uri: (*$1), range: %4, container_name: $4})
  let %6 = call "oak_core::language::TokenType::is_universal"(rv((*(*(*$2).green).children)[n("C0")]@Leaf.0.kind), new "oak_core::language::UniversalTokenRole" Name{})
  let %7 = rv(new "oak_core::tree::red_tree::RedNode"{green: (*(*(*$2).green).children)[n("L0")]@Node.0, offset: ((*$2).offset + sum(j0, 0, n("L0"), case{!((*(*(*$2).green).children)[?j0] is Leaf) => (*(*(*(*$2).green).children)[?j0]@Node.0).text_len; ((*(*(*$2).green).children)[?j0] is Leaf) => (*(*(*$2).green).children)[?j0]@Leaf.0.length}))})
  let %8 = call "oak_symbols::UniversalSymbolProvider::collect_symbols"($0, $1, %7, rv(lv("L0", "v0")), new "core::option::Option" Some{0: cat(<"<", display('?', (*(*$2).green).kind), ">">)}, $5)
  let %9 = sum(j0, 0, n("C0"), case{!((*(*(*$2).green).children)[?j0] is Leaf) => (*(*(*(*$2).green).children)[?j0]@Node.0).text_len; !true(call "oak_core::language::TokenType::is_universal"(rv((*(*(*$2).green).children)[?j0]@Leaf.0.kind), new "oak_core::language::UniversalTokenRole" Name{})) & ((*(*(*$2).green).children)[?j0] is Leaf) => (*(*(*$2).green).children)[?j0]@Leaf.0.length})
  let %10 = call "oak_core::source::Source::get_text_in"($5, new "range"{start: (%9 + (*$2).offset), end: (%9 + (*$2).offset + (*(*(*$2).green).children)[n("C0")]@Leaf.0.length)})
  let %11 = vpush((*$3), new "oak_symbols::SymbolInformation"{name: %10, role: call "oak_core::language::ElementRole::universal"(rv(%1)), uri: (*$1), range: %4, container_name: $4})
  let %12 = call "oak_symbols::UniversalSymbolProvider::collect_symbols"($0, $1, %7, rv(lv("L0", "v0")), new "core::option::Option" Some{0: %10}, $5)
  let %13 = call "oak_symbols::UniversalSymbolProvider::collect_symbols"($0, $1, %7, rv(lv("L0", "v0")), $4, $5)
case
  if %3
  if (len((*(*(*$2).green).children)) < n("C0") + 1)
  if (len((*(*(*$2).green).children)) < n("L0") + 1)
  loop C0
  loop L0 | v0 from %5
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do %2
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Definition{}))
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  set $3 := lv("L0", "v0")
  ret tup{}
pass C0
  if not (len((*(*(*$2).green).children)) < n("C0") + 1)
  if not ((*(*(*$2).green).children)[n("C0")] is Leaf)
  loop C0
pass C0
  if not (len((*(*(*$2).green).children)) < n("C0") + 1)
  if ((*(*(*$2).green).children)[n("C0")] is Leaf)
  if not true(%6)
  loop C0
  do %6
pass L0
  if not (len((*(*(*$2).green).children)) < n("L0") + 1)
  if not ((*(*(*$2).green).children)[n("L0")] is Leaf)
  loop C0
  loop L0 | v0 from %5
  do %8
  then v0 := post(3, %8)
pass L0
  if not (len((*(*(*$2).green).children)) < n("L0") + 1)
  if ((*(*(*$2).green).children)[n("L0")] is Leaf)
  loop C0
  loop L0 | v0 from %5
  then v0 := lv("L0", "v0")
case
  if %3
  if not (len((*(*(*$2).green).children)) < n("C0") + 1)
  if ((*(*(*$2).green).children)[n("C0")] is Leaf)
  if true(%6)
  if (len((*(*(*$2).green).children)) < n("L0") + 1)
  loop C0
  loop L0 | v0 from %11
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do %2
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Definition{}))
  do %6
  do %10
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  set $3 := lv("L0", "v0")
  ret tup{}
pass L0
  if not (len((*(*(*$2).green).children)) < n("L0") + 1)
  if not ((*(*(*$2).green).children)[n("L0")] is Leaf)
  loop C0
  loop L0 | v0 from %11
  do %12
  then v0 := post(3, %12)
pass L0
  if not (len((*(*(*$2).green).children)) < n("L0") + 1)
  if ((*(*(*$2).green).children)[n("L0")] is Leaf)
  loop C0
  loop L0 | v0 from %11
  then v0 := lv("L0", "v0")
case
  if not %3
  if (len((*(*(*$2).green).children)) < n("L0") + 1)
  loop L0 | v0 from (*$3)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do %2
  do call "core::intrinsics::discriminant_value"(rv(new "oak_core::language::UniversalElementRole" Definition{}))
  set $3 := lv("L0", "v0")
  ret tup{}
pass L0
  if not (len((*(*(*$2).green).children)) < n("L0") + 1)
  if not ((*(*(*$2).green).children)[n("L0")] is Leaf)
  loop L0 | v0 from (*$3)
  do %13
  then v0 := post(3, %13)
pass L0
  if not (len((*(*(*$2).green).children)) < n("L0") + 1)
  if ((*(*(*$2).green).children)[n("L0")] is Leaf)
  loop L0 | v0 from (*$3)
  then v0 := lv("L0", "v0")

fn oak_symbols::UniversalSymbolProvider::new
case
  ret const('?', 'oak_symbols::UniversalSymbolProvider')
