fn <oak_vfs::vfs::memory::MemoryVfs as core::clone::Clone>::clone
case
  ret new "oak_vfs::vfs::memory::MemoryVfs"{files: (*$0).files, ids: (*$0).ids, uri_to_id: (*$0).uri_to_id, next_id: (*$0).next_id}

fn <oak_vfs::vfs::memory::MemoryVfs as oak_vfs::Vfs>::exists
case
  do call "lock:RwLock::read"(ptr((*$0).files))
  ret (hget((*(*$0).files).value, $1) is Some)

fn <oak_vfs::vfs::memory::MemoryVfs as oak_vfs::Vfs>::get_id
case
  if (hget((*(*$0).uri_to_id).value, $1) is Some)
  do call "lock:RwLock::read"(ptr((*$0).uri_to_id))
  ret new "core::option::Option" Some{0: hget((*(*$0).uri_to_id).value, $1)@Some.0}
case
  if not (hget((*(*$0).uri_to_id).value, $1) is Some)
  do call "lock:RwLock::read"(ptr((*$0).uri_to_id))
  ret new "core::option::Option" None{}

fn <oak_vfs::vfs::memory::MemoryVfs as oak_vfs::Vfs>::get_source
case
  if (hget((*(*$0).files).value, $1) is Some)
  do call "lock:RwLock::read"(ptr((*$0).files))
  ret new "core::option::Option" Some{0: new "oak_core::source::text::SourceText"{source_id: new "core::option::Option" Some{0: hget((*(*$0).files).value, $1)@Some.0.id}, raw: hget((*(*$0).files).value, $1)@Some.0.content}}
case
  if not (hget((*(*$0).files).value, $1) is Some)
  do call "lock:RwLock::read"(ptr((*$0).files))
  ret new "core::option::Option" None{}

fn <oak_vfs::vfs::memory::MemoryVfs as oak_vfs::Vfs>::get_uri
case
  if (hget((*(*$0).ids).value, $1) is Some)
  do call "lock:RwLock::read"(ptr((*$0).ids))
  ret new "core::option::Option" Some{0: hget((*(*$0).ids).value, $1)@Some.0}
case
  if not (hget((*(*$0).ids).value, $1) is Some)
  do call "lock:RwLock::read"(ptr((*$0).ids))
  ret new "core::option::Option" None{}

fn <oak_vfs::vfs::memory::MemoryVfs as oak_vfs::Vfs>::metadata
case
  if (hget((*(*$0).files).value, $1) is Some)
  do call "lock:RwLock::read"(ptr((*$0).files))
  ret new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" File{}, len: len((*hget((*(*$0).files).value, $1)@Some.0.content)), modified: new "core::option::Option" Some{0: hget((*(*$0).files).value, $1)@Some.0.modified}}}
case
  if not (hget((*(*$0).files).value, $1) is Some)
  do call "lock:RwLock::read"(ptr((*$0).files))
  ret new "core::option::Option" None{}

fn <oak_vfs::vfs::memory::MemoryVfs as oak_vfs::Vfs>::read_dir
  let %1 = (len(call "HashMap::keys"((*(*$0).files).value)) < n("L0") + 1)
case
  if %1
  loop L0 | v0 from vnew()
  do call "lock:RwLock::read"(ptr((*$0).files))
  ret new "core::option::Option" Some{0: lv("L0", "v0")}
pass L0
  if not %1
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), (*call "HashMap::keys"((*(*$0).files).value)[n("L0")]))

fn <oak_vfs::vfs::memory::MemoryVfs as oak_vfs::WritableVfs>::remove_file
  let %1 = ((*(*$0).files) with {value: hdel((*(*$0).files).value, $1)})
case
  if (hget((*(*$0).files).value, $1) is Some)
  do call "lock:RwLock::write"(ptr((*$0).files))
  do call "lock:RwLock::write"(ptr((*$0).ids))
  do call "lock:RwLock::write"(ptr((*$0).uri_to_id))
  set (*$0).files := %1
  set (*$0).ids := ((*(*$0).ids) with {value: hdel((*(*$0).ids).value, hget((*(*$0).files).value, $1)@Some.0.id)})
  set (*$0).uri_to_id := ((*(*$0).uri_to_id) with {value: hdel((*(*$0).uri_to_id).value, $1)})
  ret tup{}
case
  if not (hget((*(*$0).files).value, $1) is Some)
  do call "lock:RwLock::write"(ptr((*$0).files))
  do call "lock:RwLock::write"(ptr((*$0).ids))
  do call "lock:RwLock::write"(ptr((*$0).uri_to_id))
  set (*$0).files := %1
  ret tup{}

fn <oak_vfs::vfs::memory::MemoryVfs as oak_vfs::WritableVfs>::write_file
  let %1 = (call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>)) is Err)
  let %2 = call "core::time::Duration::as_millis"(rv(case{%1 => call "default"("core::time::Duration"); !%1 => call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>))@Ok.0}))
  let %3 = call "core::sync::atomic::Atomic::fetch_add"((*$0).next_id, 1, new "core::sync::atomic::Ordering"{})
case
  if (hget((*(*$0).uri_to_id).value, $1) is Some)
  do call "lock:RwLock::write"(ptr((*$0).files))
  do call "lock:RwLock::write"(ptr((*$0).ids))
  do call "lock:RwLock::write"(ptr((*$0).uri_to_id))
  do call "std::time::SystemTime::now"()
  do call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>))
  do %2
  set (*$0).files := ((*(*$0).files) with {value: hins((*(*$0).files).value, $1, new "oak_vfs::vfs::memory::FileEntry"{content: $2, modified: %2, id: hget((*(*$0).uri_to_id).value, $1)@Some.0})})
  ret tup{}
case
  if not (hget((*(*$0).uri_to_id).value, $1) is Some)
  do call "lock:RwLock::write"(ptr((*$0).files))
  do call "lock:RwLock::write"(ptr((*$0).ids))
  do call "lock:RwLock::write"(ptr((*$0).uri_to_id))
  do %3
  do call "std::time::SystemTime::now"()
  do call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>))
  do %2
  set (*$0).files := ((*(*$0).files) with {value: hins((*(*$0).files).value, $1, new "oak_vfs::vfs::memory::FileEntry"{content: $2, modified: %2, id: %3})})
  set (*$0).ids := ((*(*$0).ids) with {value: hins((*(*$0).ids).value, %3, $1)})
  set (*$0).uri_to_id := ((*(*$0).uri_to_id) with {value: hins((*(*$0).uri_to_id).value, $1, %3)})
  ret tup{}

fn oak_vfs::Vfs::is_dir
  let %1 = call "core::intrinsics::discriminant_value"(rv(call "oak_vfs::Vfs::metadata"($0, $1)@Some.0.file_type))
case
  if (call "oak_vfs::Vfs::metadata"($0, $1) is Some)
  do call "oak_vfs::Vfs::metadata"($0, $1)
  do %1
  do call "core::intrinsics::discriminant_value"(rv(new "oak_vfs::FileType" Directory{}))
  ret (%1 == call "core::intrinsics::discriminant_value"(rv(new "oak_vfs::FileType" Directory{})))
case
  if not (call "oak_vfs::Vfs::metadata"($0, $1) is Some)
  do call "oak_vfs::Vfs::metadata"($0, $1)
  ret 0

fn oak_vfs::Vfs::is_file
  let %1 = call "core::intrinsics::discriminant_value"(rv(call "oak_vfs::Vfs::metadata"($0, $1)@Some.0.file_type))
case
  if (call "oak_vfs::Vfs::metadata"($0, $1) is Some)
  do call "oak_vfs::Vfs::metadata"($0, $1)
  do %1
  do call "core::intrinsics::discriminant_value"(rv(new "oak_vfs::FileType" File{}))
  ret (%1 == call "core::intrinsics::discriminant_value"(rv(new "oak_vfs::FileType" File{})))
case
  if not (call "oak_vfs::Vfs::metadata"($0, $1) is Some)
  do call "oak_vfs::Vfs::metadata"($0, $1)
  ret 0

fn oak_vfs::Vfs::line_map
  given oak_vfs::line_map::LineMap::from_source
  let %1 = call "oak_vfs::line_map::LineMap::from_source"(rv(call "oak_vfs::Vfs::get_source"($0, $1)@Some.0))
case
  if (call "oak_vfs::Vfs::get_source"($0, $1) is Some)
  do call "oak_vfs::Vfs::get_source"($0, $1)
  do %1
  ret new "core::option::Option" Some{0: %1}
case
  if not (call "oak_vfs::Vfs::get_source"($0, $1) is Some)
  do call "oak_vfs::Vfs::get_source"($0, $1)
  ret new "core::option::Option" None{}

fn oak_vfs::vfs::memory::MemoryVfs::new
case
  ret new "oak_vfs::vfs::memory::MemoryVfs"{files: call "default"("alloc::rcs::arc::Arc<std::sync::poison::rwlock::RwLock<std::collections::hash::map::HashMap<triomphe::arc::Arc<str>, oak_vfs::vfs::memory::FileEntry>>>"), ids: call "default"("alloc::rcs::arc::Arc<std::sync::poison::rwlock::RwLock<std::collections::hash::map::HashMap<u32, triomphe::arc::Arc<str>>>>"), uri_to_id: call "default"("alloc::rcs::arc::Arc<std::sync::poison::rwlock::RwLock<std::collections::hash::map::HashMap<triomphe::arc::Arc<str>, u32>>>"), next_id: call "default"("alloc::rcs::arc::Arc<core::sync::atomic::Atomic<u32>>")}

fn oak_vfs::vfs::memory::MemoryVfs::now  [private]
  takes nothing
  let %1 = (call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>)) is Err)
  let %2 = call "core::time::Duration::as_millis"(rv(case{%1 => call "default"("core::time::Duration"); !%1 => call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>))@Ok.0}))
case
  do call "std::time::SystemTime::now"()
  do call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>))
  do %2
  ret %2

fn oak_vfs::vfs::memory::MemoryVfs::remove_file
  let %1 = ((*(*$0).files) with {value: hdel((*(*$0).files).value, $1)})
case
  if (hget((*(*$0).files).value, $1) is Some)
  do call "lock:RwLock::write"(ptr((*$0).files))
  do call "lock:RwLock::write"(ptr((*$0).ids))
  do call "lock:RwLock::write"(ptr((*$0).uri_to_id))
  set (*$0).files := %1
  set (*$0).ids := ((*(*$0).ids) with {value: hdel((*(*$0).ids).value, hget((*(*$0).files).value, $1)@Some.0.id)})
  set (*$0).uri_to_id := ((*(*$0).uri_to_id) with {value: hdel((*(*$0).uri_to_id).value, $1)})
  ret tup{}
case
  if not (hget((*(*$0).files).value, $1) is Some)
  do call "lock:RwLock::write"(ptr((*$0).files))
  do call "lock:RwLock::write"(ptr((*$0).ids))
  do call "lock:RwLock::write"(ptr((*$0).uri_to_id))
  set (*$0).files := %1
  ret tup{}

fn oak_vfs::vfs::memory::MemoryVfs::write_file
  let %1 = (call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>)) is Err)
  let %2 = call "core::time::Duration::as_millis"(rv(case{%1 => call "default"("core::time::Duration"); !%1 => call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>))@Ok.0}))
  let %3 = call "core::sync::atomic::Atomic::fetch_add"((*$0).next_id, 1, new "core::sync::atomic::Ordering"{})
case
  if (hget((*(*$0).uri_to_id).value, $1) is Some)
  do call "lock:RwLock::write"(ptr((*$0).files))
  do call "lock:RwLock::write"(ptr((*$0).ids))
  do call "lock:RwLock::write"(ptr((*$0).uri_to_id))
  do call "std::time::SystemTime::now"()
  do call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>))
  do %2
  set (*$0).files := ((*(*$0).files) with {value: hins((*(*$0).files).value, $1, new "oak_vfs::vfs::memory::FileEntry"{content: $2, modified: %2, id: hget((*(*$0).uri_to_id).value, $1)@Some.0})})
  ret tup{}
case
  if not (hget((*(*$0).uri_to_id).value, $1) is Some)
  do call "lock:RwLock::write"(ptr((*$0).files))
  do call "lock:RwLock::write"(ptr((*$0).ids))
  do call "lock:RwLock::write"(ptr((*$0).uri_to_id))
  do %3
  do call "std::time::SystemTime::now"()
  do call "std::time::SystemTime::duration_since"(rv(call "std::time::SystemTime::now"()), const('std::time::UNIX_EPOCH', <>))
  do %2
  set (*$0).files := ((*(*$0).files) with {value: hins((*(*$0).files).value, $1, new "oak_vfs::vfs::memory::FileEntry"{content: $2, modified: %2, id: %3})})
  set (*$0).ids := ((*(*$0).ids) with {value: hins((*(*$0).ids).value, %3, $1)})
  set (*$0).uri_to_id := ((*(*$0).uri_to_id) with {value: hins((*(*$0).uri_to_id).value, $1, %3)})
  ret tup{}
