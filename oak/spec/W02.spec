fn <oak_lsp::workspace::WorkspaceManager as core::default::Default>::default
case
  do call "oak_resolver::GlobalSymbolTable::new"()
  do call "oak_resolver::StandardResolver::new"(vnew())
  ret new "oak_lsp::workspace::WorkspaceManager"{folders: hnew(), symbols: call "oak_resolver::GlobalSymbolTable::new"(), resolver: call "oak_resolver::StandardResolver::new"(vnew())}

fn oak_lsp::workspace::WorkspaceManager::add_folder
  let %1 = call "url::Url::to_file_path"(rv(call "url::Url::parse"(rv($1))@Ok.0))
case
  if (call "url::Url::parse"(rv($1)) is Err)
  do call "url::Url::parse"(rv($1))
  ret tup{}
case
  if not (call "url::Url::parse"(rv($1)) is Err)
  if (%1 is Err)
  do call "url::Url::parse"(rv($1))
  do %1
  ret tup{}
case
  if not (call "url::Url::parse"(rv($1)) is Err)
  if not (%1 is Err)
  do call "url::Url::parse"(rv($1))
  do %1
  set $0 := ((*$0) with {folders: hins((*$0).folders, $1, %1@Ok.0)})
  ret tup{}

fn oak_lsp::workspace::WorkspaceManager::find_root
  let %1 = call "url::Url::to_file_path"(rv(call "url::Url::parse"($1)@Ok.0))
  let %2 = call "std::path::Path::starts_with"(rv(%1@Ok.0), call "DashMap::iter"((*$0).folders)[n("L0")].1)
  let %3 = call "std::path::Path::as_os_str"(call "DashMap::iter"((*$0).folders)[n("L0")].1)
  let %4 = (call "std::ffi::os_str::OsStr::len"(%3) < lv("L0", "v0")@Some.0.1 + 1)
  let %5 = new "core::option::Option" Some{0: tup{0: (*call "DashMap::iter"((*$0).folders)[n("L0")].0), 1: call "std::ffi::os_str::OsStr::len"(%3)}}
case
  if (call "url::Url::parse"($1) is Err)
  do call "url::Url::parse"($1)
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%1 is Err)
  if (len(call "DashMap::iter"((*$0).folders)) < n("L0") + 1)
  if (lv("L0", "v0") is Some)
  loop L0 | v0 from new "core::option::Option" None{}
  do call "url::Url::parse"($1)
  do %1
  ret new "core::option::Option" Some{0: lv("L0", "v0")@Some.0.0}
pass L0
  if not (len(call "DashMap::iter"((*$0).folders)) < n("L0") + 1)
  if true(%2)
  if (lv("L0", "v0") is Some)
  if not %4
  loop L0 | v0 from new "core::option::Option" None{}
  do %2
  do %3
  do call "std::ffi::os_str::OsStr::len"(%3)
  then v0 := %5
pass L0
  if not (len(call "DashMap::iter"((*$0).folders)) < n("L0") + 1)
  if true(%2)
  if (lv("L0", "v0") is Some)
  if %4
  loop L0 | v0 from new "core::option::Option" None{}
  do %2
  do %3
  do call "std::ffi::os_str::OsStr::len"(%3)
  then v0 := lv("L0", "v0")
pass L0
  if not (len(call "DashMap::iter"((*$0).folders)) < n("L0") + 1)
  if true(%2)
  if not (lv("L0", "v0") is Some)
  loop L0 | v0 from new "core::option::Option" None{}
  do %2
  do %3
  do call "std::ffi::os_str::OsStr::len"(%3)
  then v0 := %5
pass L0
  if not (len(call "DashMap::iter"((*$0).folders)) < n("L0") + 1)
  if not true(%2)
  loop L0 | v0 from new "core::option::Option" None{}
  do %2
  then v0 := lv("L0", "v0")
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%1 is Err)
  if (len(call "DashMap::iter"((*$0).folders)) < n("L0") + 1)
  if not (lv("L0", "v0") is Some)
  loop L0 | v0 from new "core::option::Option" None{}
  do call "url::Url::parse"($1)
  do %1
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if (%1 is Err)
  do call "url::Url::parse"($1)
  do %1
  ret new "core::option::Option" None{}

fn oak_lsp::workspace::WorkspaceManager::get_path
  let %1 = call "url::Url::to_file_path"(rv(call "url::Url::parse"($1)@Ok.0))
case
  if (call "url::Url::parse"($1) is Err)
  do call "url::Url::parse"($1)
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if (%1 is Err)
  do call "url::Url::parse"($1)
  do %1
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::parse"($1) is Err)
  if not (%1 is Err)
  do call "url::Url::parse"($1)
  do %1
  ret new "core::option::Option" Some{0: %1@Ok.0}

fn oak_lsp::workspace::WorkspaceManager::initialize
  let %1 = call "oak_resolver::StandardResolver::set_root_dirs"(rv((*$0).resolver), lv("L0", "v0"))
  let %2 = call "url::Url::parse"(rv((*$1).workspace_folders[n("L0")].uri))
  let %3 = vpush(lv("L0", "v0"), call "url::Url::to_file_path"(rv(%2@Ok.0))@Ok.0)
  let %4 = hins(lv("L0", "v1"), (*$1).workspace_folders[n("L0")].uri, call "url::Url::to_file_path"(rv(%2@Ok.0))@Ok.0)
  let %5 = call "url::Url::to_file_path"(rv(call "url::Url::parse"(rv((*$1).root_uri@Some.0))@Ok.0))
case
  if ((*$1).root_uri is Some)
  if (call "url::Url::parse"(rv((*$1).root_uri@Some.0)) is Err)
  if not (n("L0") < len((*$1).workspace_folders))
  loop L0 @0 | v0 from vnew() | v1 from (*$0).folders
  do call "url::Url::parse"(rv((*$1).root_uri@Some.0))
  do %1
  set $0 := ((*$0) with {folders: lv("L0", "v1")})
  ret tup{}
pass L0
  if (n("L0") < len((*$1).workspace_folders))
  if (%2 is Err)
  loop L0 | v0 from vnew() | v1 from (*$0).folders
  do %2
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L0
  if (n("L0") < len((*$1).workspace_folders))
  if not (%2 is Err)
  if (call "url::Url::to_file_path"(rv(%2@Ok.0)) is Err)
  loop L0 | v0 from vnew() | v1 from (*$0).folders
  do %2
  do call "url::Url::to_file_path"(rv(%2@Ok.0))
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L0
  if (n("L0") < len((*$1).workspace_folders))
  if not (%2 is Err)
  if not (call "url::Url::to_file_path"(rv(%2@Ok.0)) is Err)
  loop L0 | v0 from vnew() | v1 from (*$0).folders
  do %2
  do call "url::Url::to_file_path"(rv(%2@Ok.0))
  then v0 := %3
  then v1 := %4
case
  if ((*$1).root_uri is Some)
  if not (call "url::Url::parse"(rv((*$1).root_uri@Some.0)) is Err)
  if (%5 is Err)
  if not (n("L0") < len((*$1).workspace_folders))
  loop L0 @1 | v0 from vnew() | v1 from (*$0).folders
  do call "url::Url::parse"(rv((*$1).root_uri@Some.0))
  do %5
  do %1
  set $0 := ((*$0) with {folders: lv("L0", "v1")})
  ret tup{}
case
  if ((*$1).root_uri is Some)
  if not (call "url::Url::parse"(rv((*$1).root_uri@Some.0)) is Err)
  if not (%5 is Err)
  if not (n("L0") < len((*$1).workspace_folders))
  loop L0 | v0 from vpush(vnew(), %5@Ok.0) | v1 from hins((*$0).folders, (*$1).root_uri@Some.0, %5@Ok.0)
  do call "url::Url::parse"(rv((*$1).root_uri@Some.0))
  do %5
  do %1
  set $0 := ((*$0) with {folders: lv("L0", "v1")})
  ret tup{}
pass L0
  if (n("L0") < len((*$1).workspace_folders))
  if (%2 is Err)
  loop L0 | v0 from vpush(vnew(), %5@Ok.0) | v1 from hins((*$0).folders, (*$1).root_uri@Some.0, %5@Ok.0)
  do %2
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L0
  if (n("L0") < len((*$1).workspace_folders))
  if not (%2 is Err)
  if (call "url::Url::to_file_path"(rv(%2@Ok.0)) is Err)
  loop L0 | v0 from vpush(vnew(), %5@Ok.0) | v1 from hins((*$0).folders, (*$1).root_uri@Some.0, %5@Ok.0)
  do %2
  do call "url::Url::to_file_path"(rv(%2@Ok.0))
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
pass L0
  if (n("L0") < len((*$1).workspace_folders))
  if not (%2 is Err)
  if not (call "url::Url::to_file_path"(rv(%2@Ok.0)) is Err)
  loop L0 | v0 from vpush(vnew(), %5@Ok.0) | v1 from hins((*$0).folders, (*$1).root_uri@Some.0, %5@Ok.0)
  do %2
  do call "url::Url::to_file_path"(rv(%2@Ok.0))
  then v0 := %3
  then v1 := %4
case
  if not ((*$1).root_uri is Some)
  if not (n("L0") < len((*$1).workspace_folders))
  loop L0 @2 | v0 from vnew() | v1 from (*$0).folders
  do %1
  set $0 := ((*$0) with {folders: lv("L0", "v1")})
  ret tup{}

fn oak_lsp::workspace::WorkspaceManager::is_within_workspace
  given oak_lsp::workspace::WorkspaceManager::find_root
case
  do call "oak_lsp::workspace::WorkspaceManager::find_root"($0, $1)
  ret (call "oak_lsp::workspace::WorkspaceManager::find_root"($0, $1) is Some)

fn oak_lsp::workspace::WorkspaceManager::list_folders
case
  if (len(call "DashMap::iter"((*$0).folders)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  ret lv("L0", "v0")
pass L0
  if not (len(call "DashMap::iter"((*$0).folders)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), tup{0: (*call "DashMap::iter"((*$0).folders)[n("L0")].0), 1: (*call "DashMap::iter"((*$0).folders)[n("L0")].1)})

fn oak_lsp::workspace::WorkspaceManager::new
case
  do call "oak_resolver::GlobalSymbolTable::new"()
  do call "oak_resolver::StandardResolver::new"(vnew())
  ret new "oak_lsp::workspace::WorkspaceManager"{folders: hnew(), symbols: call "oak_resolver::GlobalSymbolTable::new"(), resolver: call "oak_resolver::StandardResolver::new"(vnew())}

fn oak_lsp::workspace::WorkspaceManager::path_to_uri
case
  if (call "url::Url::from_file_path"($1) is Err)
  do call "url::Url::from_file_path"($1)
  ret new "core::option::Option" None{}
case
  if not (call "url::Url::from_file_path"($1) is Err)
  do call "url::Url::from_file_path"($1)
  ret new "core::option::Option" Some{0: display('d', call "url::Url::from_file_path"($1)@Ok.0)}

fn oak_lsp::workspace::WorkspaceManager::remove_folder
case
  set $0 := ((*$0) with {folders: hdel((*$0).folders, $1)})
  ret tup{}
