fn <oak_vfs::vfs::disk::DiskVfs as oak_vfs::Vfs>::exists
  let %1 = call "std::path::Path::exists"(rv(call "std::path::Path::join"(rv((*$0).root_path), $1)))
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::exists"(rv($1))
  ret call "std::path::Path::exists"(rv($1))
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %1
  ret %1

fn <oak_vfs::vfs::disk::DiskVfs as oak_vfs::Vfs>::get_id
case
  if (hget((*$0).uri_to_id.value, $1) is Some)
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.uri_to_id'>)))
  ret new "core::option::Option" Some{0: hget((*$0).uri_to_id.value, $1)@Some.0}
case
  if not (hget((*$0).uri_to_id.value, $1) is Some)
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.uri_to_id'>)))
  ret new "core::option::Option" None{}

fn <oak_vfs::vfs::disk::DiskVfs as oak_vfs::Vfs>::get_source
  let %1 = call "std::fs::read_to_string"(call "std::path::Path::join"(rv((*$0).root_path), $1))
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if (call "std::fs::read_to_string"($1) is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::read_to_string"($1)
  ret new "core::option::Option" None{}
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::read_to_string"($1) is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::read_to_string"($1)
  ret new "core::option::Option" Some{0: new "oak_core::source::text::SourceText"{source_id: new "core::option::Option" None{}, raw: rv(call "std::fs::read_to_string"($1)@Ok.0)}}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if (%1 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %1
  ret new "core::option::Option" None{}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%1 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %1
  ret new "core::option::Option" Some{0: new "oak_core::source::text::SourceText"{source_id: new "core::option::Option" None{}, raw: rv(%1@Ok.0)}}

fn <oak_vfs::vfs::disk::DiskVfs as oak_vfs::Vfs>::get_uri
case
  if (hget((*$0).id_to_uri.value, $1) is Some)
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.id_to_uri'>)))
  ret new "core::option::Option" Some{0: hget((*$0).id_to_uri.value, $1)@Some.0}
case
  if not (hget((*$0).id_to_uri.value, $1) is Some)
  do call "lock:RwLock::read"(ptr(ref(P($0), <'.id_to_uri'>)))
  ret new "core::option::Option" None{}

fn <oak_vfs::vfs::disk::DiskVfs as oak_vfs::Vfs>::metadata
  let %1 = call "std::fs::Metadata::is_file"(rv(call "std::fs::metadata"($1)@Ok.0))
  let %2 = call "std::fs::Metadata::modified"(rv(call "std::fs::metadata"($1)@Ok.0))
  let %3 = call "std::fs::Metadata::len"(rv(call "std::fs::metadata"($1)@Ok.0))
  let %4 = new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" File{}, len: %3, modified: new "core::option::Option" None{}}}
  let %5 = call "std::time::SystemTime::duration_since"(rv(%2@Ok.0), const('std::time::UNIX_EPOCH', <>))
  let %6 = new "core::option::Option" Some{0: call "core::time::Duration::as_secs"(rv(%5@Ok.0))}
  let %7 = call "std::fs::Metadata::is_dir"(rv(call "std::fs::metadata"($1)@Ok.0))
  let %8 = new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" Directory{}, len: %3, modified: new "core::option::Option" None{}}}
  let %9 = new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" Other{}, len: %3, modified: new "core::option::Option" None{}}}
  let %10 = call "std::fs::metadata"(call "std::path::Path::join"(rv((*$0).root_path), $1))
  let %11 = new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" File{}, len: call "std::fs::Metadata::len"(rv(%10@Ok.0)), modified: new "core::option::Option" None{}}}
  let %12 = call "std::time::SystemTime::duration_since"(rv(call "std::fs::Metadata::modified"(rv(%10@Ok.0))@Ok.0), const('std::time::UNIX_EPOCH', <>))
  let %13 = new "core::option::Option" Some{0: call "core::time::Duration::as_secs"(rv(%12@Ok.0))}
  let %14 = new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" Directory{}, len: call "std::fs::Metadata::len"(rv(%10@Ok.0)), modified: new "core::option::Option" None{}}}
  let %15 = new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" Other{}, len: call "std::fs::Metadata::len"(rv(%10@Ok.0)), modified: new "core::option::Option" None{}}}
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if (call "std::fs::metadata"($1) is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  ret new "core::option::Option" None{}
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if true(%1)
  if (%2 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %2
  do %3
  ret %4
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if true(%1)
  if not (%2 is Err)
  if (%5 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %2
  do %5
  do %3
  ret %4
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if true(%1)
  if not (%2 is Err)
  if not (%5 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %2
  do %5
  do call "core::time::Duration::as_secs"(rv(%5@Ok.0))
  do %3
  ret new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" File{}, len: %3, modified: %6}}
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if not true(%1)
  if true(%7)
  if (%2 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %7
  do %2
  do %3
  ret %8
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if not true(%1)
  if true(%7)
  if not (%2 is Err)
  if (%5 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %7
  do %2
  do %5
  do %3
  ret %8
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if not true(%1)
  if true(%7)
  if not (%2 is Err)
  if not (%5 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %7
  do %2
  do %5
  do call "core::time::Duration::as_secs"(rv(%5@Ok.0))
  do %3
  ret new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" Directory{}, len: %3, modified: %6}}
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if not true(%1)
  if not true(%7)
  if (%2 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %7
  do %2
  do %3
  ret %9
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if not true(%1)
  if not true(%7)
  if not (%2 is Err)
  if (%5 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %7
  do %2
  do %5
  do %3
  ret %9
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::fs::metadata"($1) is Err)
  if not true(%1)
  if not true(%7)
  if not (%2 is Err)
  if not (%5 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::metadata"($1)
  do %1
  do %7
  do %2
  do %5
  do call "core::time::Duration::as_secs"(rv(%5@Ok.0))
  do %3
  ret new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" Other{}, len: %3, modified: %6}}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if (%10 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  ret new "core::option::Option" None{}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret %11
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if not (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  if (%12 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do %12
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret %11
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if not (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  if not (%12 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do %12
  do call "core::time::Duration::as_secs"(rv(%12@Ok.0))
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" File{}, len: call "std::fs::Metadata::len"(rv(%10@Ok.0)), modified: %13}}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if not true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if true(call "std::fs::Metadata::is_dir"(rv(%10@Ok.0)))
  if (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::is_dir"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret %14
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if not true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if true(call "std::fs::Metadata::is_dir"(rv(%10@Ok.0)))
  if not (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  if (%12 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::is_dir"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do %12
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret %14
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if not true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if true(call "std::fs::Metadata::is_dir"(rv(%10@Ok.0)))
  if not (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  if not (%12 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::is_dir"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do %12
  do call "core::time::Duration::as_secs"(rv(%12@Ok.0))
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" Directory{}, len: call "std::fs::Metadata::len"(rv(%10@Ok.0)), modified: %13}}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if not true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if not true(call "std::fs::Metadata::is_dir"(rv(%10@Ok.0)))
  if (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::is_dir"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret %15
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if not true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if not true(call "std::fs::Metadata::is_dir"(rv(%10@Ok.0)))
  if not (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  if (%12 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::is_dir"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do %12
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret %15
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%10 is Err)
  if not true(call "std::fs::Metadata::is_file"(rv(%10@Ok.0)))
  if not true(call "std::fs::Metadata::is_dir"(rv(%10@Ok.0)))
  if not (call "std::fs::Metadata::modified"(rv(%10@Ok.0)) is Err)
  if not (%12 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %10
  do call "std::fs::Metadata::is_file"(rv(%10@Ok.0))
  do call "std::fs::Metadata::is_dir"(rv(%10@Ok.0))
  do call "std::fs::Metadata::modified"(rv(%10@Ok.0))
  do %12
  do call "core::time::Duration::as_secs"(rv(%12@Ok.0))
  do call "std::fs::Metadata::len"(rv(%10@Ok.0))
  ret new "core::option::Option" Some{0: new "oak_vfs::FileMetadata"{file_type: new "oak_vfs::FileType" Other{}, len: call "std::fs::Metadata::len"(rv(%10@Ok.0)), modified: %13}}

fn <oak_vfs::vfs::disk::DiskVfs as oak_vfs::Vfs>::read_dir
  let %1 = call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))@Some.0
  let %2 = call "std::path::Path::is_absolute"(rv(call "std::fs::DirEntry::path"(rv(%1@Ok.0))))
  let %3 = call "std::path::Path::to_string_lossy"(rv(call "std::fs::DirEntry::path"(rv(%1@Ok.0))))
  let %4 = call "std::path::Path::strip_prefix"(rv(call "std::fs::DirEntry::path"(rv(%1@Ok.0))), rv((*$0).root_path))
  let %5 = vpush(lv("L0", "v1"), call "std::path::Path::to_string_lossy"(%4@Ok.0))
  let %6 = call "std::path::Path::is_dir"(rv(call "std::path::Path::join"(rv((*$0).root_path), $1)))
  let %7 = call "std::fs::read_dir"(call "std::path::Path::join"(rv((*$0).root_path), $1))
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if true(call "std::path::Path::is_dir"(rv($1)))
  if (call "std::fs::read_dir"($1) is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::is_dir"(rv($1))
  do call "std::fs::read_dir"($1)
  ret new "core::option::Option" None{}
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if true(call "std::path::Path::is_dir"(rv($1)))
  if not (call "std::fs::read_dir"($1) is Err)
  if not (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  loop L0 | v0 from call "std::fs::read_dir"($1)@Ok.0 | v1 from vnew()
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::is_dir"(rv($1))
  do call "std::fs::read_dir"($1)
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  ret new "core::option::Option" Some{0: lv("L0", "v1")}
pass L0
  if (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if (%1 is Err)
  loop L0 | v0 from call "std::fs::read_dir"($1)@Ok.0 | v1 from vnew()
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := lv("L0", "v1")
pass L0
  if (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if true(%2)
  loop L0 | v0 from call "std::fs::read_dir"($1)@Ok.0 | v1 from vnew()
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  do call "std::fs::DirEntry::path"(rv(%1@Ok.0))
  do %2
  do %3
  then v0 := post(0, call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(lv("L0", "v1"), %3)
pass L0
  if (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if not true(%2)
  if not (%4 is Err)
  loop L0 | v0 from call "std::fs::read_dir"($1)@Ok.0 | v1 from vnew()
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  do call "std::fs::DirEntry::path"(rv(%1@Ok.0))
  do %2
  do %4
  do call "std::path::Path::to_string_lossy"(%4@Ok.0)
  then v0 := post(0, call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := %5
pass L0
  if (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if not true(%2)
  if (%4 is Err)
  loop L0 | v0 from call "std::fs::read_dir"($1)@Ok.0 | v1 from vnew()
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  do call "std::fs::DirEntry::path"(rv(%1@Ok.0))
  do %2
  do %4
  do %3
  then v0 := post(0, call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(lv("L0", "v1"), %3)
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not true(call "std::path::Path::is_dir"(rv($1)))
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::is_dir"(rv($1))
  ret new "core::option::Option" None{}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if true(%6)
  if (%7 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %6
  do %7
  ret new "core::option::Option" None{}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if true(%6)
  if not (%7 is Err)
  if not (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  loop L0 | v0 from %7@Ok.0 | v1 from vnew()
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %6
  do %7
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  ret new "core::option::Option" Some{0: lv("L0", "v1")}
pass L0
  if (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if (%1 is Err)
  loop L0 | v0 from %7@Ok.0 | v1 from vnew()
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  then v0 := post(0, call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := lv("L0", "v1")
pass L0
  if (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if true(%2)
  loop L0 | v0 from %7@Ok.0 | v1 from vnew()
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  do call "std::fs::DirEntry::path"(rv(%1@Ok.0))
  do %2
  do %3
  then v0 := post(0, call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(lv("L0", "v1"), %3)
pass L0
  if (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if not true(%2)
  if not (%4 is Err)
  loop L0 | v0 from %7@Ok.0 | v1 from vnew()
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  do call "std::fs::DirEntry::path"(rv(%1@Ok.0))
  do %2
  do %4
  do call "std::path::Path::to_string_lossy"(%4@Ok.0)
  then v0 := post(0, call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := %5
pass L0
  if (call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))) is Some)
  if not (%1 is Err)
  if not true(%2)
  if (%4 is Err)
  loop L0 | v0 from %7@Ok.0 | v1 from vnew()
  do call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0")))
  do call "std::fs::DirEntry::path"(rv(%1@Ok.0))
  do %2
  do %4
  do %3
  then v0 := post(0, call "<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next"(rv(lv("L0", "v0"))))
  then v1 := vpush(lv("L0", "v1"), %3)
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not true(%6)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %6
  ret new "core::option::Option" None{}

fn <oak_vfs::vfs::disk::DiskVfs as oak_vfs::WritableVfs>::remove_file
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::fs::remove_file"($1)
  ret tup{}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do call "std::fs::remove_file"(call "std::path::Path::join"(rv((*$0).root_path), $1))
  ret tup{}

fn <oak_vfs::vfs::disk::DiskVfs as oak_vfs::WritableVfs>::write_file
  let %1 = call "std::path::Path::parent"(rv(call "std::path::Path::join"(rv((*$0).root_path), $1)))
  let %2 = call "std::fs::write"(call "std::path::Path::join"(rv((*$0).root_path), $1), $2)
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if (call "std::path::Path::parent"(rv($1)) is Some)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::parent"(rv($1))
  do call "std::fs::create_dir_all"(call "std::path::Path::parent"(rv($1))@Some.0)
  do call "std::fs::write"($1, $2)
  ret tup{}
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  if not (call "std::path::Path::parent"(rv($1)) is Some)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::parent"(rv($1))
  do call "std::fs::write"($1, $2)
  ret tup{}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if (%1 is Some)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %1
  do call "std::fs::create_dir_all"(%1@Some.0)
  do %2
  ret tup{}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%1 is Some)
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  do %1
  do %2
  ret tup{}

fn <oak_vfs::vfs::watch::DiskWatcher as oak_vfs::vfs::watch::VfsWatcher>::unwatch
  let %1 = call "<notify::inotify::INotifyWatcher as notify::Watcher>::unwatch"(rv((*$0).watcher), call "std::path::PathBuf::as_path"(rv($1)))
case
  do call "std::path::PathBuf::as_path"(rv($1))
  do %1
  set $0 := ((*$0) with {watcher: post(0, %1)})
  ret %1

fn <oak_vfs::vfs::watch::DiskWatcher as oak_vfs::vfs::watch::VfsWatcher>::unwatch_all
case
  ret new "core::result::Result" Ok{0: tup{}}

fn <oak_vfs::vfs::watch::DiskWatcher as oak_vfs::vfs::watch::VfsWatcher>::watch
  let %1 = call "<notify::inotify::INotifyWatcher as notify::Watcher>::watch"(rv((*$0).watcher), call "std::path::PathBuf::as_path"(rv($1)), new "notify::config::RecursiveMode"{})
case
  do call "std::path::PathBuf::as_path"(rv($1))
  do %1
  set $0 := ((*$0) with {watcher: post(0, %1)})
  ret %1

fn oak_vfs::vfs::disk::DiskVfs::new
case
  ret new "oak_vfs::vfs::disk::DiskVfs"{uri_to_id: new "RwLock"{value: hnew()}, id_to_uri: new "RwLock"{value: hnew()}, root_path: $0}

fn oak_vfs::vfs::disk::DiskVfs::path_to_uri  [private]
  takes &oak_vfs::vfs::disk::DiskVfs; std::path::PathBuf
  let %1 = call "std::path::Path::strip_prefix"(rv($1), rv((*$0).root_path))
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::to_string_lossy"(rv($1))
  ret call "std::path::Path::to_string_lossy"(rv($1))
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if (%1 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do %1
  do call "std::path::Path::to_string_lossy"(rv($1))
  ret call "std::path::Path::to_string_lossy"(rv($1))
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  if not (%1 is Err)
  do call "std::path::Path::is_absolute"(rv($1))
  do %1
  do call "std::path::Path::to_string_lossy"(%1@Ok.0)
  ret call "std::path::Path::to_string_lossy"(%1@Ok.0)

fn oak_vfs::vfs::disk::DiskVfs::uri_to_path  [private]
  takes &oak_vfs::vfs::disk::DiskVfs; &str
case
  if true(call "std::path::Path::is_absolute"(rv($1)))
  do call "std::path::Path::is_absolute"(rv($1))
  ret new "core::option::Option" Some{0: $1}
case
  if not true(call "std::path::Path::is_absolute"(rv($1)))
  do call "std::path::Path::is_absolute"(rv($1))
  do call "std::path::Path::join"(rv((*$0).root_path), $1)
  ret new "core::option::Option" Some{0: call "std::path::Path::join"(rv((*$0).root_path), $1)}

fn oak_vfs::vfs::watch::DiskWatcher::new
case
  if (call "notify::recommended_watcher"(clo('oak_vfs::vfs::watch::DiskWatcher::new::{closure#0}', <$0>)) is Err)
  do call "notify::recommended_watcher"(clo('oak_vfs::vfs::watch::DiskWatcher::new::{closure#0}', <$0>))
  ret new "core::result::Result" Err{0: call "notify::recommended_watcher"(clo('oak_vfs::vfs::watch::DiskWatcher::new::{closure#0}', <$0>))@Err.0}
case
  if not (call "notify::recommended_watcher"(clo('oak_vfs::vfs::watch::DiskWatcher::new::{closure#0}', <$0>)) is Err)
  do call "notify::recommended_watcher"(clo('oak_vfs::vfs::watch::DiskWatcher::new::{closure#0}', <$0>))
  ret new "core::result::Result" Ok{0: new "oak_vfs::vfs::watch::DiskWatcher"{watcher: call "notify::recommended_watcher"(clo('oak_vfs::vfs::watch::DiskWatcher::new::{closure#0}', <$0>))@Ok.0}}

fn oak_vfs::vfs::watch::DiskWatcher::new::{closure#0}  [private]
  takes core::result::Result<notify_types::event::Event, notify::error::Error>
  let %1 = call "notify_types::event::EventKind::is_modify"(rv($1@Ok.0.kind))
  let %2 = call "std::path::Path::to_string_lossy"(rv($1@Ok.0.paths[n("L0")]))
  let %3 = call "core::ops::function::FnMut::call_mut"(rv(lv("L0", "v0")), tup{0: new "oak_vfs::vfs::watch::VfsEvent" Changed{0: %2}})
  let %4 = call "notify_types::event::EventKind::is_create"(rv($1@Ok.0.kind))
  let %5 = call "core::ops::function::FnMut::call_mut"(rv(lv("L0", "v0")), tup{0: new "oak_vfs::vfs::watch::VfsEvent" Created{0: %2}})
  let %6 = call "notify_types::event::EventKind::is_remove"(rv($1@Ok.0.kind))
  let %7 = call "core::ops::function::FnMut::call_mut"(rv(lv("L0", "v0")), tup{0: new "oak_vfs::vfs::watch::VfsEvent" Removed{0: %2}})
case
  if ($1 is Err)
  ret tup{}
case
  if not ($1 is Err)
  if (len($1@Ok.0.paths) < n("L0") + 1)
  loop L0 | v0 from (*$0).0
  set $0 := ((*$0) with {0: lv("L0", "v0")})
  ret tup{}
pass L0
  if not (len($1@Ok.0.paths) < n("L0") + 1)
  if true(%1)
  loop L0 | v0 from (*$0).0
  do %2
  do %1
  do %3
  then v0 := post(0, %3)
pass L0
  if not (len($1@Ok.0.paths) < n("L0") + 1)
  if not true(%1)
  if true(%4)
  loop L0 | v0 from (*$0).0
  do %2
  do %1
  do %4
  do %5
  then v0 := post(0, %5)
pass L0
  if not (len($1@Ok.0.paths) < n("L0") + 1)
  if not true(%1)
  if not true(%4)
  if true(%6)
  loop L0 | v0 from (*$0).0
  do %2
  do %1
  do %4
  do %6
  do %7
  then v0 := post(0, %7)
pass L0
  if not (len($1@Ok.0.paths) < n("L0") + 1)
  if not true(%1)
  if not true(%4)
  if not true(%6)
  loop L0 | v0 from (*$0).0
  do %2
  do %1
  do %4
  do %6
  then v0 := lv("L0", "v0")
