fn <oak_resolver::GlobalSymbolTable as core::default::Default>::default
case
  ret new "oak_resolver::GlobalSymbolTable"{file_symbols: hnew(), qualified_symbols: hnew()}

fn <oak_resolver::StandardResolver as oak_resolver::ModuleResolver>::resolve
  let %1 = call "std::path::Path::join"(rv((*$0).root_dirs.value[n("C0")]), $2)
  let %2 = new "core::option::Option" Some{0: display('d', call "url::Url::from_file_path"(%1)@Ok.0)}
  let %3 = call "url::Url::to_file_path"(rv(call "url::Url::parse"($1)@Ok.0))
  let %4 = call "std::path::Path::join"(call "std::path::Path::parent"(rv(%3@Ok.0))@Some.0, $2)
case
  if (call "url::Url::parse"($1) is Err)
  if (len((*$0).root_dirs.value) < n("C0") + 1)
  loop C0 @0
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  ret new "core::option::Option" None{}
pass C0
  if not (len((*$0).root_dirs.value) < n("C0") + 1)
  if not true(call "std::path::Path::exists"(rv(%1)))
  loop C0
  do %1
  do call "std::path::Path::exists"(rv(%1))
case
  if (call "url::Url::parse"($1) is Err)
  if not (len((*$0).root_dirs.value) < n("C0") + 1)
  if true(call "std::path::Path::exists"(rv(%1)))
  if (call "url::Url::from_file_path"(%1) is Err)
  loop C0 @0
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %1
  do call "std::path::Path::exists"(rv(%1))
  do call "url::Url::from_file_path"(%1)
  ret new "core::option::Option" None{}
case
  if (call "url::Url::parse"($1) is Err)
  if not (len((*$0).root_dirs.value) < n("C0") + 1)
  if true(call "std::path::Path::exists"(rv(%1)))
  if not (call "url::Url::from_file_path"(%1) is Err)
  loop C0 @0
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %1
  do call "std::path::Path::exists"(rv(%1))
  do call "url::Url::from_file_path"(%1)
  ret %2
case
  if not (call "url::Url::parse"($1) is Err)
  if (%3 is Err)
  if (len((*$0).root_dirs.value) < n("C0") + 1)
  loop C0 @1
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if (%3 is Err)
  if not (len((*$0).root_dirs.value) < n("C0") + 1)
  if true(call "std::path::Path::exists"(rv(%1)))
  if (call "url::Url::from_file_path"(%1) is Err)
  loop C0 @1
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  do %1
  do call "std::path::Path::exists"(rv(%1))
  do call "url::Url::from_file_path"(%1)
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if (%3 is Err)
  if not (len((*$0).root_dirs.value) < n("C0") + 1)
  if true(call "std::path::Path::exists"(rv(%1)))
  if not (call "url::Url::from_file_path"(%1) is Err)
  loop C0 @1
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  do %1
  do call "std::path::Path::exists"(rv(%1))
  do call "url::Url::from_file_path"(%1)
  ret %2
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%3 is Err)
  if (call "std::path::Path::parent"(rv(%3@Ok.0)) is Some)
  if true(call "std::path::Path::exists"(rv(%4)))
  if (call "url::Url::from_file_path"(%4) is Err)
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  do call "std::path::Path::parent"(rv(%3@Ok.0))
  do %4
  do call "std::path::Path::exists"(rv(%4))
  do call "url::Url::from_file_path"(%4)
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%3 is Err)
  if (call "std::path::Path::parent"(rv(%3@Ok.0)) is Some)
  if true(call "std::path::Path::exists"(rv(%4)))
  if not (call "url::Url::from_file_path"(%4) is Err)
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  do call "std::path::Path::parent"(rv(%3@Ok.0))
  do %4
  do call "std::path::Path::exists"(rv(%4))
  do call "url::Url::from_file_path"(%4)
  ret new "core::option::Option" Some{0: display('d', call "url::Url::from_file_path"(%4)@Ok.0)}
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%3 is Err)
  if (call "std::path::Path::parent"(rv(%3@Ok.0)) is Some)
  if not true(call "std::path::Path::exists"(rv(%4)))
  if (len((*$0).root_dirs.value) < n("C0") + 1)
  loop C0 @2
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  do call "std::path::Path::parent"(rv(%3@Ok.0))
  do %4
  do call "std::path::Path::exists"(rv(%4))
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%3 is Err)
  if (call "std::path::Path::parent"(rv(%3@Ok.0)) is Some)
  if not true(call "std::path::Path::exists"(rv(%4)))
  if not (len((*$0).root_dirs.value) < n("C0") + 1)
  if true(call "std::path::Path::exists"(rv(%1)))
  if (call "url::Url::from_file_path"(%1) is Err)
  loop C0 @2
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  do call "std::path::Path::parent"(rv(%3@Ok.0))
  do %4
  do call "std::path::Path::exists"(rv(%4))
  do %1
  do call "std::path::Path::exists"(rv(%1))
  do call "url::Url::from_file_path"(%1)
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%3 is Err)
  if (call "std::path::Path::parent"(rv(%3@Ok.0)) is Some)
  if not true(call "std::path::Path::exists"(rv(%4)))
  if not (len((*$0).root_dirs.value) < n("C0") + 1)
  if true(call "std::path::Path::exists"(rv(%1)))
  if not (call "url::Url::from_file_path"(%1) is Err)
  loop C0 @2
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  do call "std::path::Path::parent"(rv(%3@Ok.0))
  do %4
  do call "std::path::Path::exists"(rv(%4))
  do %1
  do call "std::path::Path::exists"(rv(%1))
  do call "url::Url::from_file_path"(%1)
  ret %2
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%3 is Err)
  if not (call "std::path::Path::parent"(rv(%3@Ok.0)) is Some)
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.root_dirs'>)))
  do call "url::Url::parse"($1)
  do %3
  do call "std::path::Path::parent"(rv(%3@Ok.0))
  ret new "core::option::Option" None{}

fn oak_resolver::GlobalSymbolTable::lookup
case
  if (hget((*$0).qualified_symbols, $1) is Some)
  ret new "core::option::Option" Some{0: new "oak_symbols::SymbolInformation"{name: hget((*$0).qualified_symbols, $1)@Some.0.name, role: hget((*$0).qualified_symbols, $1)@Some.0.role, uri: hget((*$0).qualified_symbols, $1)@Some.0.uri, range: hget((*$0).qualified_symbols, $1)@Some.0.range, container_name: hget((*$0).qualified_symbols, $1)@Some.0.container_name}}
case
  if not (hget((*$0).qualified_symbols, $1) is Some)
  ret new "core::option::Option" None{}

fn oak_resolver::GlobalSymbolTable::make_qualified_name  [private]
  takes &oak_resolver::GlobalSymbolTable; &oak_symbols::SymbolInformation
case
  if ((*$1).container_name is Some)
  ret cat(<(*$1).container_name@Some.0, "::", (*$1).name>)
case
  if not ((*$1).container_name is Some)
  ret (*$1).name

fn oak_resolver::GlobalSymbolTable::new
case
  ret new "oak_resolver::GlobalSymbolTable"{file_symbols: hnew(), qualified_symbols: hnew()}

fn oak_resolver::GlobalSymbolTable::query
  let %1 = (len(call "DashMap::iter"((*$0).qualified_symbols)) < n("L0") + 1)
  let %2 = call "str::contains"(call "DashMap::iter"((*$0).qualified_symbols)[n("L0")].0, $1)
case
  if %1
  loop L0 | v0 from vnew()
  ret lv("L0", "v0")
pass L0
  if not %1
  if true(%2)
  loop L0 | v0 from vnew()
  do %2
  then v0 := vpush(lv("L0", "v0"), new "oak_symbols::SymbolInformation"{name: (*call "DashMap::iter"((*$0).qualified_symbols)[n("L0")].1).name, role: (*call "DashMap::iter"((*$0).qualified_symbols)[n("L0")].1).role, uri: (*call "DashMap::iter"((*$0).qualified_symbols)[n("L0")].1).uri, range: (*call "DashMap::iter"((*$0).qualified_symbols)[n("L0")].1).range, container_name: (*call "DashMap::iter"((*$0).qualified_symbols)[n("L0")].1).container_name})
pass L0
  if not %1
  if not true(%2)
  loop L0 | v0 from vnew()
  do %2
  then v0 := lv("L0", "v0")

fn oak_resolver::GlobalSymbolTable::query_file
case
  if (hget((*$0).file_symbols, $1) is Some)
  ret hget((*$0).file_symbols, $1)@Some.0
case
  if not (hget((*$0).file_symbols, $1) is Some)
  ret vnew()

fn oak_resolver::GlobalSymbolTable::update_file_symbols
  let %1 = hget((*$0).file_symbols, $1)@Some.0.1[n("L0")].container_name
  let %2 = new "oak_symbols::SymbolInformation"{name: $2[n("L1")].name, role: $2[n("L1")].role, uri: $2[n("L1")].uri, range: $2[n("L1")].range, container_name: $2[n("L1")].container_name}
  let %3 = new "oak_symbols::SymbolInformation"{name: $2[n("L0")].name, role: $2[n("L0")].role, uri: $2[n("L0")].uri, range: $2[n("L0")].range, container_name: $2[n("L0")].container_name}
case
  if (hget((*$0).file_symbols, $1) is Some)
  if not (n("L0") < len(hget((*$0).file_symbols, $1)@Some.0.1))
  if (len($2) < n("L1") + 1)
  loop L0 @0 | v0 from (*$0).qualified_symbols
  loop L1 | v0 from lv("L0", "v0")
  set $0 := ((*$0) with {file_symbols: hins((*$0).file_symbols, $1, $2), qualified_symbols: lv("L1", "v0")})
  ret tup{}
pass L0
  if (n("L0") < len(hget((*$0).file_symbols, $1)@Some.0.1))
  if (%1 is Some)
  loop L0 @0 | v0 from (*$0).qualified_symbols
  then v0 := hdel(lv("L0", "v0"), cat(<%1@Some.0, "::", hget((*$0).file_symbols, $1)@Some.0.1[n("L0")].name>))
pass L0
  if (n("L0") < len(hget((*$0).file_symbols, $1)@Some.0.1))
  if not (%1 is Some)
  loop L0 @0 | v0 from (*$0).qualified_symbols
  then v0 := hdel(lv("L0", "v0"), hget((*$0).file_symbols, $1)@Some.0.1[n("L0")].name)
pass L1
  if not (len($2) < n("L1") + 1)
  if ($2[n("L1")].container_name is Some)
  loop L0 @0 | v0 from (*$0).qualified_symbols
  loop L1 | v0 from lv("L0", "v0")
  then v0 := hins(lv("L1", "v0"), cat(<$2[n("L1")].container_name@Some.0, "::", $2[n("L1")].name>), %2)
pass L1
  if not (len($2) < n("L1") + 1)
  if not ($2[n("L1")].container_name is Some)
  loop L0 @0 | v0 from (*$0).qualified_symbols
  loop L1 | v0 from lv("L0", "v0")
  then v0 := hins(lv("L1", "v0"), $2[n("L1")].name, %2)
case
  if not (hget((*$0).file_symbols, $1) is Some)
  if not (n("L0") < len($2))
  loop L0 @1 | v0 from (*$0).qualified_symbols
  set $0 := ((*$0) with {file_symbols: hins((*$0).file_symbols, $1, $2), qualified_symbols: lv("L0", "v0")})
  ret tup{}
pass L0
  if (n("L0") < len($2))
  if ($2[n("L0")].container_name is Some)
  loop L0 @1 | v0 from (*$0).qualified_symbols
  then v0 := hins(lv("L0", "v0"), cat(<$2[n("L0")].container_name@Some.0, "::", $2[n("L0")].name>), %3)
pass L0
  if (n("L0") < len($2))
  if not ($2[n("L0")].container_name is Some)
  loop L0 @1 | v0 from (*$0).qualified_symbols
  then v0 := hins(lv("L0", "v0"), $2[n("L0")].name, %3)

fn oak_resolver::StandardResolver::new
case
  ret new "oak_resolver::StandardResolver"{root_dirs: new "RwLock"{value: $0}}

fn oak_resolver::StandardResolver::set_root_dirs
case
  do call "lock:RwLock::write"(ptr(ref(P($0), <'.root_dirs'>)))
  set $0 := ((*$0) with {root_dirs: ((*$0).root_dirs with {value: $1})})
  ret tup{}
