fn <oak_core::memory::arena::SyntaxArena as core::default::Default>::default
case
  do call "core::ptr::non_null::NonNull::dangling"()
  ret new "oak_core::memory::arena::SyntaxArena"{ptr: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, end: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, full_chunks: new "UnsafeCell"{value: vnew()}, current_chunk_start: new "UnsafeCell"{value: call "core::ptr::non_null::NonNull::dangling"()}, metadata: new "UnsafeCell"{value: vnew()}}

fn <oak_core::memory::arena::SyntaxArena as core::ops::drop::Drop>::drop
  let %1 = ((*$0).current_chunk_start.value === call "core::ptr::non_null::NonNull::dangling"())
  let %2 = call "core::alloc::layout::Layout::from_size_align"((*$0).full_chunks.value[n("C0")].1, 8)
  let %3 = op('cast:PointerExposeProvenance', (*$0).current_chunk_start.value)
  let %4 = (op('cast:PointerExposeProvenance', (*$0).end.value) == %3 + 65536)
  let %5 = call "core::alloc::layout::Layout::from_size_align"((-%3 + op('cast:PointerExposeProvenance', (*$0).end.value)), 8)
  let %6 = call "alloc::alloc::dealloc"((*$0).current_chunk_start.value, %5@Ok.0)
case
  if %1
  if (len((*$0).full_chunks.value) < n("C0") + 1)
  loop C0 @0
  do call "core::ptr::non_null::NonNull::dangling"()
  ret tup{}
pass C0
  if not (len((*$0).full_chunks.value) < n("C0") + 1)
  if ((*$0).full_chunks.value[n("C0")].1 == 65536)
  loop C0
  do call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::recycle_chunk::{closure#0}', <rv((*$0).full_chunks.value[n("C0")].0)>))
pass C0
  if not (len((*$0).full_chunks.value) < n("C0") + 1)
  if not ((*$0).full_chunks.value[n("C0")].1 == 65536)
  if not (%2 is Err)
  loop C0
  do %2
  do call "alloc::alloc::dealloc"((*$0).full_chunks.value[n("C0")].0, %2@Ok.0)
case
  if %1
  if not (len((*$0).full_chunks.value) < n("C0") + 1)
  if not ((*$0).full_chunks.value[n("C0")].1 == 65536)
  if (%2 is Err)
  loop C0 @0
  panics
case
  if not %1
  if not %4
  if (%5 is Err)
  panics
case
  if not %1
  if %4
  if (len((*$0).full_chunks.value) < n("C0") + 1)
  loop C0 @1
  do call "core::ptr::non_null::NonNull::dangling"()
  do call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::recycle_chunk::{closure#0}', <rv((*$0).current_chunk_start.value)>))
  ret tup{}
case
  if not %1
  if %4
  if not (len((*$0).full_chunks.value) < n("C0") + 1)
  if not ((*$0).full_chunks.value[n("C0")].1 == 65536)
  if (%2 is Err)
  loop C0 @1
  panics
case
  if not %1
  if not %4
  if not (%5 is Err)
  if (len((*$0).full_chunks.value) < n("C0") + 1)
  loop C0 @2
  do call "core::ptr::non_null::NonNull::dangling"()
  do %5
  do %6
  set (*$0).current_chunk_start.value := post(0, %6)
  ret tup{}
case
  if not %1
  if not %4
  if not (%5 is Err)
  if not (len((*$0).full_chunks.value) < n("C0") + 1)
  if not ((*$0).full_chunks.value[n("C0")].1 == 65536)
  if (%2 is Err)
  loop C0 @2
  panics

fn oak_core::memory::arena::SyntaxArena::recycle_chunk::{closure#0}  [private]
  takes &core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>
case
  if (len((*$1).value) < 64)
  do call "lock:RefCell::borrow_mut"(ptr($1))
  set $1 := ((*$1) with {value: vpush((*$1).value, (*$0.0))})
  ret tup{}
case
  if not (len((*$1).value) < 64)
  do call "lock:RefCell::borrow_mut"(ptr($1))
  ret tup{}

fn oak_core::memory::arena::CHUNK_POOL::__rust_std_internal_init_fn  [private]
  takes core::marker::PhantomData<&()>
case
  ret new "RefCell"{value: vnew()}

fn oak_core::memory::arena::SyntaxArena::add_metadata
  let %1 = call "core::num::nonzero::NonZero::new"((len((*$0).metadata.value) + 1))
case
  if not (%1 is Some)
  panics
case
  if (%1 is Some)
  do %1
  set $0 := ((*$0) with {metadata: ((*$0).metadata with {value: vpush((*$0).metadata.value, $1)})})
  ret %1@Some.0

fn oak_core::memory::arena::SyntaxArena::alloc
  let %1 = (call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"())) < 9)
  let %2 = (op('Rem', op('cast:PointerExposeProvenance', (*$0).ptr.value), 8) == 0)
  let %3 = op('BitAnd', (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"())) + op('cast:PointerExposeProvenance', (*$0).ptr.value) + 7), op('BitNot', 7))
  let %4 = ((*$0).current_chunk_start.value === call "core::ptr::non_null::NonNull::dangling"())
  let %5 = max((call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"())) + 8), 65536)
  let %6 = call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::alloc_chunk::{closure#0}', <>))
  let %7 = (call "core::alloc::layout::Layout::from_size_align"(%5, 8) is Err)
  let %8 = call "alloc::alloc::alloc"(call "core::alloc::layout::Layout::from_size_align"(%5, 8)@Ok.0)
  let %9 = op('cast:PointerWithExposedProvenance', op('cast:PointerExposeProvenance', %8))
  let %10 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (%5 + op('cast:PointerExposeProvenance', %8)))})
  let %11 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"())) + op('cast:PointerExposeProvenance', %8) + 7)))}))
  let %12 = ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %8}), end: %10, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"())) + op('cast:PointerExposeProvenance', %8) + 7)))})})
  let %13 = op('cast:PointerWithExposedProvenance', op('cast:PointerExposeProvenance', %6@Ok.0@Some.0))
  let %14 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (%5 + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0)))})
  let %15 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"())) + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))}))
  let %16 = ((*$0).full_chunks with {value: vpush((*$0).full_chunks.value, tup{0: (*$0).current_chunk_start.value, 1: (-op('cast:PointerExposeProvenance', (*$0).current_chunk_start.value) + op('cast:PointerExposeProvenance', (*$0).end.value))})})
  let %17 = ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %8}), end: %10, full_chunks: %16, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"())) + op('cast:PointerExposeProvenance', %8) + 7)))})})
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if (%6 is Err)
  if %7
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if (%6 is Err)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if %7
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if not (%5 == 65536)
  if %7
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if not (%5 == 65536)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if (%6 is Err)
  if %7
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if (%6 is Err)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if %7
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if not (%5 == 65536)
  if %7
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if not (%5 == 65536)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if %1
  if not %2
  panics
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if (%6 is Err)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "*mut T::write"(%9, $1)
  set $0 := %12
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret %9
case
  if %1
  if %2
  if not (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "*mut T::write"((*$0).ptr.value, $1)
  set $0 := ((*$0) with {ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', %3)})})
  set (*$0).ptr.value := post(0, call "*mut T::write"((*$0).ptr.value, $1))
  ret rv(post(0, call "*mut T::write"((*$0).ptr.value, $1)))
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if not (%5 == 65536)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::ptr::non_null::NonNull::dangling"()
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "*mut T::write"(%9, $1)
  set $0 := %12
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret %9
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "*mut T::write"(%9, $1)
  set $0 := %12
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret %9
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "*mut T::write"(%13, $1)
  set $0 := ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %6@Ok.0@Some.0}), end: %14, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"())) + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))})})
  ret %13
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if (%6 is Err)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "*mut T::write"(%9, $1)
  set $0 := %17
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret %9
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if not (%5 == 65536)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::ptr::non_null::NonNull::dangling"()
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "*mut T::write"(%9, $1)
  set $0 := %17
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret %9
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "*mut T::write"(%9, $1)
  set $0 := %17
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret %9
case
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  do call "core::alloc::layout::Layout::new"()
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"()))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "*mut T::write"(%13, $1)
  set $0 := ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %6@Ok.0@Some.0}), end: %14, full_chunks: %16, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::new"())) + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))})})
  ret %13
case
  if not %1
  panics

fn oak_core::memory::arena::SyntaxArena::alloc_chunk::{closure#0}  [private]
  takes &core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>
case
  if (len((*$1).value) == 0)
  do call "lock:RefCell::borrow_mut"(ptr($1))
  ret new "core::option::Option" None{}
case
  if not (len((*$1).value) == 0)
  do call "lock:RefCell::borrow_mut"(ptr($1))
  set $1 := ((*$1) with {value: vpop((*$1).value)})
  ret new "core::option::Option" Some{0: (*$1).value[(len((*$1).value) - 1)]}

fn oak_core::memory::arena::SyntaxArena::alloc_chunk  [private]
  takes usize
  let %1 = call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::alloc_chunk::{closure#0}', <>))
  let %2 = call "alloc::alloc::alloc"(call "core::alloc::layout::Layout::from_size_align"($0, 8)@Ok.0)
case
  if ($0 == 65536)
  if (%1 is Err)
  if (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  panics
case
  if ($0 == 65536)
  if (%1 is Err)
  if not (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  if true(call "*mut T::is_null"(%2))
  panics
case
  if ($0 == 65536)
  if (%1 is Err)
  if not (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  if not true(call "*mut T::is_null"(%2))
  do %1
  do call "core::alloc::layout::Layout::from_size_align"($0, 8)
  do %2
  do call "*mut T::is_null"(%2)
  set %2 := post(0, call "*mut T::is_null"(%2))
  ret %2
case
  if ($0 == 65536)
  if not (%1 is Err)
  if (%1@Ok.0 is Some)
  do %1
  ret %1@Ok.0@Some.0
case
  if ($0 == 65536)
  if not (%1 is Err)
  if not (%1@Ok.0 is Some)
  if (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  panics
case
  if ($0 == 65536)
  if not (%1 is Err)
  if not (%1@Ok.0 is Some)
  if not (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  if true(call "*mut T::is_null"(%2))
  panics
case
  if ($0 == 65536)
  if not (%1 is Err)
  if not (%1@Ok.0 is Some)
  if not (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  if not true(call "*mut T::is_null"(%2))
  do %1
  do call "core::alloc::layout::Layout::from_size_align"($0, 8)
  do %2
  do call "*mut T::is_null"(%2)
  set %2 := post(0, call "*mut T::is_null"(%2))
  ret %2
case
  if not ($0 == 65536)
  if (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  panics
case
  if not ($0 == 65536)
  if not (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  if true(call "*mut T::is_null"(%2))
  panics
case
  if not ($0 == 65536)
  if not (call "core::alloc::layout::Layout::from_size_align"($0, 8) is Err)
  if not true(call "*mut T::is_null"(%2))
  do call "core::alloc::layout::Layout::from_size_align"($0, 8)
  do %2
  do call "*mut T::is_null"(%2)
  set %2 := post(0, call "*mut T::is_null"(%2))
  ret %2

fn oak_core::memory::arena::SyntaxArena::alloc_raw  [private]
  takes &oak_core::memory::arena::SyntaxArena; usize
  let %1 = (op('Rem', op('cast:PointerExposeProvenance', (*$0).ptr.value), 8) == 0)
  let %2 = op('BitAnd', op('BitNot', 7), ($1 + op('cast:PointerExposeProvenance', (*$0).ptr.value) + 7))
  let %3 = ((*$0).current_chunk_start.value === call "core::ptr::non_null::NonNull::dangling"())
  let %4 = call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::alloc_chunk::{closure#0}', <>))
  let %5 = call "core::alloc::layout::Layout::from_size_align"(max(65536, ($1 + 8)), 8)
  let %6 = true(call "*mut T::is_null"(call "alloc::alloc::alloc"(%5@Ok.0)))
  let %7 = post(0, call "*mut T::is_null"(call "alloc::alloc::alloc"(%5@Ok.0)))
  let %8 = ((*$0).current_chunk_start with {value: call "alloc::alloc::alloc"(%5@Ok.0)})
  let %9 = op('cast:PointerExposeProvenance', call "alloc::alloc::alloc"(%5@Ok.0))
  let %10 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (%9 + max(65536, ($1 + 8))))})
  let %11 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + %9 + 7)))}))
  let %12 = ((*$0) with {current_chunk_start: %8, end: %10, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + %9 + 7)))})})
  let %13 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (max(65536, ($1 + 8)) + op('cast:PointerExposeProvenance', %4@Ok.0@Some.0)))})
  let %14 = ((*$0).full_chunks with {value: vpush((*$0).full_chunks.value, tup{0: (*$0).current_chunk_start.value, 1: (-op('cast:PointerExposeProvenance', (*$0).current_chunk_start.value) + op('cast:PointerExposeProvenance', (*$0).end.value))})})
  let %15 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + op('cast:PointerExposeProvenance', %4@Ok.0@Some.0) + 7)))}))
  let %16 = op('cast:PointerWithExposedProvenance', op('cast:PointerExposeProvenance', %4@Ok.0@Some.0))
  let %17 = ((*$0) with {current_chunk_start: %8, end: %10, full_chunks: %14, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + %9 + 7)))})})
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if (max(65536, ($1 + 8)) == 65536)
  if (%4 is Err)
  if (%5 is Err)
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if (max(65536, ($1 + 8)) == 65536)
  if (%4 is Err)
  if not (%5 is Err)
  if %6
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if (max(65536, ($1 + 8)) == 65536)
  if not (%4 is Err)
  if not (%4@Ok.0 is Some)
  if (%5 is Err)
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if (max(65536, ($1 + 8)) == 65536)
  if not (%4 is Err)
  if not (%4@Ok.0 is Some)
  if not (%5 is Err)
  if %6
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if not (max(65536, ($1 + 8)) == 65536)
  if (%5 is Err)
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if not (max(65536, ($1 + 8)) == 65536)
  if not (%5 is Err)
  if %6
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if (max(65536, ($1 + 8)) == 65536)
  if (%4 is Err)
  if (%5 is Err)
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if (max(65536, ($1 + 8)) == 65536)
  if (%4 is Err)
  if not (%5 is Err)
  if %6
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if (max(65536, ($1 + 8)) == 65536)
  if not (%4 is Err)
  if not (%4@Ok.0 is Some)
  if (%5 is Err)
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if (max(65536, ($1 + 8)) == 65536)
  if not (%4 is Err)
  if not (%4@Ok.0 is Some)
  if not (%5 is Err)
  if %6
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if not (max(65536, ($1 + 8)) == 65536)
  if (%5 is Err)
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if not (max(65536, ($1 + 8)) == 65536)
  if not (%5 is Err)
  if %6
  panics
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if (max(65536, ($1 + 8)) == 65536)
  if (%4 is Err)
  if not (%5 is Err)
  if not %6
  do call "core::ptr::non_null::NonNull::dangling"()
  do %4
  do %5
  do call "alloc::alloc::alloc"(%5@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%5@Ok.0))
  set $0 := %12
  set call "alloc::alloc::alloc"(%5@Ok.0) := %7
  ret op('cast:PointerWithExposedProvenance', %9)
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if (max(65536, ($1 + 8)) == 65536)
  if not (%4 is Err)
  if (%4@Ok.0 is Some)
  do call "core::ptr::non_null::NonNull::dangling"()
  do %4
  set $0 := ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %4@Ok.0@Some.0}), end: %13, full_chunks: %14, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + op('cast:PointerExposeProvenance', %4@Ok.0@Some.0) + 7)))})})
  ret %16
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if (max(65536, ($1 + 8)) == 65536)
  if not (%4 is Err)
  if not (%4@Ok.0 is Some)
  if not (%5 is Err)
  if not %6
  do call "core::ptr::non_null::NonNull::dangling"()
  do %4
  do %5
  do call "alloc::alloc::alloc"(%5@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%5@Ok.0))
  set $0 := %17
  set call "alloc::alloc::alloc"(%5@Ok.0) := %7
  ret op('cast:PointerWithExposedProvenance', %9)
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if not (max(65536, ($1 + 8)) == 65536)
  if not (%5 is Err)
  if not %6
  do call "core::ptr::non_null::NonNull::dangling"()
  do %5
  do call "alloc::alloc::alloc"(%5@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%5@Ok.0))
  set $0 := %17
  set call "alloc::alloc::alloc"(%5@Ok.0) := %7
  ret op('cast:PointerWithExposedProvenance', %9)
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if not %3
  if (max(65536, ($1 + 8)) == 65536)
  if (%4 is Err)
  if not (%5 is Err)
  if not %6
  do call "core::ptr::non_null::NonNull::dangling"()
  do %4
  do %5
  do call "alloc::alloc::alloc"(%5@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%5@Ok.0))
  set $0 := %17
  set call "alloc::alloc::alloc"(%5@Ok.0) := %7
  ret op('cast:PointerWithExposedProvenance', %9)
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if (max(65536, ($1 + 8)) == 65536)
  if not (%4 is Err)
  if (%4@Ok.0 is Some)
  do call "core::ptr::non_null::NonNull::dangling"()
  do %4
  set $0 := ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %4@Ok.0@Some.0}), end: %13, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + op('cast:PointerExposeProvenance', %4@Ok.0@Some.0) + 7)))})})
  ret %16
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if (max(65536, ($1 + 8)) == 65536)
  if not (%4 is Err)
  if not (%4@Ok.0 is Some)
  if not (%5 is Err)
  if not %6
  do call "core::ptr::non_null::NonNull::dangling"()
  do %4
  do %5
  do call "alloc::alloc::alloc"(%5@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%5@Ok.0))
  set $0 := %12
  set call "alloc::alloc::alloc"(%5@Ok.0) := %7
  ret op('cast:PointerWithExposedProvenance', %9)
case
  if %1
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  if %3
  if not (max(65536, ($1 + 8)) == 65536)
  if not (%5 is Err)
  if not %6
  do call "core::ptr::non_null::NonNull::dangling"()
  do %5
  do call "alloc::alloc::alloc"(%5@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%5@Ok.0))
  set $0 := %12
  set call "alloc::alloc::alloc"(%5@Ok.0) := %7
  ret op('cast:PointerWithExposedProvenance', %9)
case
  if %1
  if not (op('cast:PointerExposeProvenance', (*$0).end.value) < %2)
  set $0 := ((*$0) with {ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', %2)})})
  ret (*$0).ptr.value
case
  if not %1
  panics

fn oak_core::memory::arena::SyntaxArena::alloc_slice_copy
  let %1 = (call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1))) < 9)
  let %2 = (op('Rem', op('cast:PointerExposeProvenance', (*$0).ptr.value), 8) == 0)
  let %3 = op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1))) + op('cast:PointerExposeProvenance', (*$0).ptr.value) + 7))
  let %4 = ((*$0).current_chunk_start.value === call "core::ptr::non_null::NonNull::dangling"())
  let %5 = max(65536, (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1))) + 8))
  let %6 = call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::alloc_chunk::{closure#0}', <>))
  let %7 = (call "core::alloc::layout::Layout::from_size_align"(%5, 8) is Err)
  let %8 = call "alloc::alloc::alloc"(call "core::alloc::layout::Layout::from_size_align"(%5, 8)@Ok.0)
  let %9 = op('cast:PointerWithExposedProvenance', op('cast:PointerExposeProvenance', %8))
  let %10 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (%5 + op('cast:PointerExposeProvenance', %8)))})
  let %11 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1))) + op('cast:PointerExposeProvenance', %8) + 7)))}))
  let %12 = ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %8}), end: %10, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1))) + op('cast:PointerExposeProvenance', %8) + 7)))})})
  let %13 = call "core::ptr::copy_nonoverlapping"($1, (*$0).ptr.value, len((*$1)))
  let %14 = call "core::slice::raw::from_raw_parts_mut"(rv(post(1, %13)), len((*$1)))
  let %15 = op('cast:PointerWithExposedProvenance', op('cast:PointerExposeProvenance', %6@Ok.0@Some.0))
  let %16 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (%5 + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0)))})
  let %17 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1))) + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))}))
  let %18 = ((*$0).full_chunks with {value: vpush((*$0).full_chunks.value, tup{0: (*$0).current_chunk_start.value, 1: (-op('cast:PointerExposeProvenance', (*$0).current_chunk_start.value) + op('cast:PointerExposeProvenance', (*$0).end.value))})})
  let %19 = ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %8}), end: %10, full_chunks: %18, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1))) + op('cast:PointerExposeProvenance', %8) + 7)))})})
case
  if (len((*$1)) == 0)
  ret rv(new "[]"{})
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if (%6 is Err)
  if %7
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if (%6 is Err)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if %7
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if not (%5 == 65536)
  if %7
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if not (%5 == 65536)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if (%6 is Err)
  if %7
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if (%6 is Err)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if %7
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if not (%5 == 65536)
  if %7
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if not (%5 == 65536)
  if not %7
  if true(call "*mut T::is_null"(%8))
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if not %2
  panics
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if (%6 is Err)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "core::ptr::copy_nonoverlapping"($1, %9, len((*$1)))
  do call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
  set $0 := %12
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if not (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do %13
  do %14
  set $0 := ((*$0) with {ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', %3)})})
  set (*$0).ptr.value := post(0, %14)
  ret %14
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if not (%5 == 65536)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::ptr::non_null::NonNull::dangling"()
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "core::ptr::copy_nonoverlapping"($1, %9, len((*$1)))
  do call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
  set $0 := %12
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "core::ptr::copy_nonoverlapping"($1, %9, len((*$1)))
  do call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
  set $0 := %12
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if %4
  if (%5 == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::ptr::copy_nonoverlapping"($1, %15, len((*$1)))
  do call "core::slice::raw::from_raw_parts_mut"(%15, len((*$1)))
  set $0 := ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %6@Ok.0@Some.0}), end: %16, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1))) + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))})})
  ret call "core::slice::raw::from_raw_parts_mut"(%15, len((*$1)))
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if (%6 is Err)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "core::ptr::copy_nonoverlapping"($1, %9, len((*$1)))
  do call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
  set $0 := %19
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if not (%5 == 65536)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::ptr::non_null::NonNull::dangling"()
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "core::ptr::copy_nonoverlapping"($1, %9, len((*$1)))
  do call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
  set $0 := %19
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not %7
  if not true(call "*mut T::is_null"(%8))
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::alloc::layout::Layout::from_size_align"(%5, 8)
  do %8
  do call "*mut T::is_null"(%8)
  do call "core::ptr::copy_nonoverlapping"($1, %9, len((*$1)))
  do call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
  set $0 := %19
  set %8 := post(0, call "*mut T::is_null"(%8))
  ret call "core::slice::raw::from_raw_parts_mut"(%9, len((*$1)))
case
  if not (len((*$1)) == 0)
  if %1
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %3)
  if not %4
  if (%5 == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  do call "core::alloc::layout::Layout::for_value"($1)
  do call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1)))
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::ptr::copy_nonoverlapping"($1, %15, len((*$1)))
  do call "core::slice::raw::from_raw_parts_mut"(%15, len((*$1)))
  set $0 := ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %6@Ok.0@Some.0}), end: %16, full_chunks: %18, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::for_value"($1))) + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))})})
  ret call "core::slice::raw::from_raw_parts_mut"(%15, len((*$1)))
case
  if not (len((*$1)) == 0)
  if not %1
  panics

fn oak_core::memory::arena::SyntaxArena::alloc_slice_fill_iter
  let %1 = call "core::alloc::layout::Layout::align"(rv(call "core::alloc::layout::Layout::array"($1)@Ok.0))
  let %2 = (op('Rem', op('cast:PointerExposeProvenance', (*$0).ptr.value), 8) == 0)
  let %3 = call "core::alloc::layout::Layout::size"(rv(call "core::alloc::layout::Layout::array"($1)@Ok.0))
  let %4 = op('BitAnd', op('BitNot', 7), (%3 + op('cast:PointerExposeProvenance', (*$0).ptr.value) + 7))
  let %5 = ((*$0).current_chunk_start.value === call "core::ptr::non_null::NonNull::dangling"())
  let %6 = call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::alloc_chunk::{closure#0}', <>))
  let %7 = call "core::alloc::layout::Layout::from_size_align"(max(65536, (%3 + 8)), 8)
  let %8 = true(call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0)))
  let %9 = op('cast:PointerExposeProvenance', call "alloc::alloc::alloc"(%7@Ok.0))
  let %10 = call "core::slice::raw::from_raw_parts_mut"(op('cast:PointerWithExposedProvenance', %9), $1)
  let %11 = post(0, call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0)))
  let %12 = ((*$0).current_chunk_start with {value: call "alloc::alloc::alloc"(%7@Ok.0)})
  let %13 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (%9 + max(65536, (%3 + 8))))})
  let %14 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (%3 + %9 + 7)))}))
  let %15 = ((*$0) with {current_chunk_start: %12, end: %13, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (%3 + %9 + 7)))})})
  let %16 = call "*mut T::add"(op('cast:PointerWithExposedProvenance', %9), n("L0"))
  let %17 = call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))@Some.0
  let %18 = ((*$0) with {ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', %4)})})
  let %19 = post(0, call "core::slice::raw::from_raw_parts_mut"(rv(lv("L0", "v0")), $1))
  let %20 = op('cast:PointerWithExposedProvenance', op('cast:PointerExposeProvenance', %6@Ok.0@Some.0))
  let %21 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (max(65536, (%3 + 8)) + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0)))})
  let %22 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (%3 + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))}))
  let %23 = ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %6@Ok.0@Some.0}), end: %21, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (%3 + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))})})
  let %24 = ((*$0).full_chunks with {value: vpush((*$0).full_chunks.value, tup{0: (*$0).current_chunk_start.value, 1: (-op('cast:PointerExposeProvenance', (*$0).current_chunk_start.value) + op('cast:PointerExposeProvenance', (*$0).end.value))})})
  let %25 = ((*$0) with {current_chunk_start: %12, end: %13, full_chunks: %24, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (%3 + %9 + 7)))})})
  let %26 = ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %6@Ok.0@Some.0}), end: %21, full_chunks: %24, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), (%3 + op('cast:PointerExposeProvenance', %6@Ok.0@Some.0) + 7)))})})
case
  if ($1 == 0)
  ret rv(new "[]"{})
case
  if not ($1 == 0)
  if (call "core::alloc::layout::Layout::array"($1) is Err)
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if (%7 is Err)
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if %8
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if (%7 is Err)
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if %8
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if not (max(65536, (%3 + 8)) == 65536)
  if (%7 is Err)
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if %8
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if (%7 is Err)
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if %8
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if (%7 is Err)
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if %8
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if not (max(65536, (%3 + 8)) == 65536)
  if (%7 is Err)
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if %8
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if not %2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @0 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %15
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
pass L0
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 < n("L0") + 1)
  loop L0 @0,1,2,3,4,5 | v0 from $2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %16
  do call "*mut T::write"(%16, %17)
  then v0 := post(0, call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))))
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @0 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 == n("L0"))
  loop L0 @0 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %15
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 == n("L0"))
  loop L0 @0 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if not (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 | v0 from (*(*$0).ptr.value) | v1 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1")))
  do call "core::slice::raw::from_raw_parts_mut"(rv(lv("L0", "v0")), $1)
  set $0 := %18
  set (*$0).ptr.value := %19
  ret call "core::slice::raw::from_raw_parts_mut"(rv(lv("L0", "v0")), $1)
pass L0
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1"))) is Some)
  if not ($1 < n("L0") + 1)
  loop L0 | v0 from (*(*$0).ptr.value) | v1 from $2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1")))
  do call "*mut T::add"(rv(lv("L0", "v0")), n("L0"))
  do call "*mut T::write"(call "*mut T::add"(rv(lv("L0", "v0")), n("L0")), call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1")))@Some.0)
  then v0 := post(0, call "*mut T::add"(rv(lv("L0", "v0")), n("L0")))
  then v1 := post(0, call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1"))))
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if not (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 | v0 from (*(*$0).ptr.value) | v1 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if not (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1"))) is Some)
  if ($1 == n("L0"))
  loop L0 | v0 from (*(*$0).ptr.value) | v1 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1")))
  do call "core::slice::raw::from_raw_parts_mut"(rv(lv("L0", "v0")), $1)
  set $0 := %18
  set (*$0).ptr.value := %19
  ret call "core::slice::raw::from_raw_parts_mut"(rv(lv("L0", "v0")), $1)
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if not (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v1"))) is Some)
  if not ($1 == n("L0"))
  loop L0 | v0 from (*(*$0).ptr.value) | v1 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @1 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %15
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @1 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 == n("L0"))
  loop L0 @1 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %15
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 == n("L0"))
  loop L0 @1 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @2 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %15
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @2 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 == n("L0"))
  loop L0 @2 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %15
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 == n("L0"))
  loop L0 @2 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @6 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do call "core::slice::raw::from_raw_parts_mut"(%20, $1)
  set $0 := %23
  ret call "core::slice::raw::from_raw_parts_mut"(%20, $1)
pass L0
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 < n("L0") + 1)
  loop L0 @6,7 | v0 from $2
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do call "*mut T::add"(%20, n("L0"))
  do call "*mut T::write"(call "*mut T::add"(%20, n("L0")), %17)
  then v0 := post(0, call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))))
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @6 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 == n("L0"))
  loop L0 @6 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do call "core::slice::raw::from_raw_parts_mut"(%20, $1)
  set $0 := %23
  ret call "core::slice::raw::from_raw_parts_mut"(%20, $1)
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 == n("L0"))
  loop L0 @6 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @3 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %25
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @3 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 == n("L0"))
  loop L0 @3 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %25
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if (%6 is Err)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 == n("L0"))
  loop L0 @3 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @4 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %25
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @4 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 == n("L0"))
  loop L0 @4 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %25
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if not (max(65536, (%3 + 8)) == 65536)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 == n("L0"))
  loop L0 @4 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @5 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %25
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if not %8
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @5 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 == n("L0"))
  loop L0 @5 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do %7
  do call "alloc::alloc::alloc"(%7@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%7@Ok.0))
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do %10
  set $0 := %25
  set call "alloc::alloc::alloc"(%7@Ok.0) := %11
  ret %10
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if not (%6@Ok.0 is Some)
  if not (%7 is Err)
  if not %8
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 == n("L0"))
  loop L0 @5 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @7 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do call "core::slice::raw::from_raw_parts_mut"(%20, $1)
  set $0 := %26
  ret call "core::slice::raw::from_raw_parts_mut"(%20, $1)
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  if (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 < n("L0") + 1)
  loop L0 @7 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if ($1 == n("L0"))
  loop L0 @7 | v0 from $2
  do call "core::alloc::layout::Layout::array"($1)
  do %1
  do %3
  do call "core::ptr::non_null::NonNull::dangling"()
  do %6
  do call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0")))
  do call "core::slice::raw::from_raw_parts_mut"(%20, $1)
  set $0 := %26
  ret call "core::slice::raw::from_raw_parts_mut"(%20, $1)
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if (%1 < 9)
  if %2
  if (op('cast:PointerExposeProvenance', (*$0).end.value) < %4)
  if not %5
  if (max(65536, (%3 + 8)) == 65536)
  if not (%6 is Err)
  if (%6@Ok.0 is Some)
  if not (call "core::iter::traits::iterator::Iterator::next"(rv(lv("L0", "v0"))) is Some)
  if not ($1 == n("L0"))
  loop L0 @7 | v0 from $2
  panics
case
  if not ($1 == 0)
  if not (call "core::alloc::layout::Layout::array"($1) is Err)
  if not (%1 < 9)
  panics

fn oak_core::memory::arena::SyntaxArena::alloc_slow  [private]
  takes &oak_core::memory::arena::SyntaxArena; usize
  let %1 = ((*$0).current_chunk_start.value === call "core::ptr::non_null::NonNull::dangling"())
  let %2 = call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::alloc_chunk::{closure#0}', <>))
  let %3 = call "core::alloc::layout::Layout::from_size_align"(max(65536, ($1 + 8)), 8)
  let %4 = true(call "*mut T::is_null"(call "alloc::alloc::alloc"(%3@Ok.0)))
  let %5 = post(0, call "*mut T::is_null"(call "alloc::alloc::alloc"(%3@Ok.0)))
  let %6 = ((*$0).current_chunk_start with {value: call "alloc::alloc::alloc"(%3@Ok.0)})
  let %7 = op('cast:PointerExposeProvenance', call "alloc::alloc::alloc"(%3@Ok.0))
  let %8 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (%7 + max(65536, ($1 + 8))))})
  let %9 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + %7 + 7)))}))
  let %10 = ((*$0) with {current_chunk_start: %6, end: %8, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + %7 + 7)))})})
  let %11 = ((*$0).end with {value: op('cast:PointerWithExposedProvenance', (max(65536, ($1 + 8)) + op('cast:PointerExposeProvenance', %2@Ok.0@Some.0)))})
  let %12 = ptr(((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + op('cast:PointerExposeProvenance', %2@Ok.0@Some.0) + 7)))}))
  let %13 = op('cast:PointerWithExposedProvenance', op('cast:PointerExposeProvenance', %2@Ok.0@Some.0))
  let %14 = ((*$0).full_chunks with {value: vpush((*$0).full_chunks.value, tup{0: (*$0).current_chunk_start.value, 1: (-op('cast:PointerExposeProvenance', (*$0).current_chunk_start.value) + op('cast:PointerExposeProvenance', (*$0).end.value))})})
  let %15 = ((*$0) with {current_chunk_start: %6, end: %8, full_chunks: %14, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + %7 + 7)))})})
case
  if %1
  if (max(65536, ($1 + 8)) == 65536)
  if (%2 is Err)
  if (%3 is Err)
  panics
case
  if %1
  if (max(65536, ($1 + 8)) == 65536)
  if (%2 is Err)
  if not (%3 is Err)
  if %4
  panics
case
  if %1
  if (max(65536, ($1 + 8)) == 65536)
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if (%3 is Err)
  panics
case
  if %1
  if (max(65536, ($1 + 8)) == 65536)
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if not (%3 is Err)
  if %4
  panics
case
  if %1
  if not (max(65536, ($1 + 8)) == 65536)
  if (%3 is Err)
  panics
case
  if %1
  if not (max(65536, ($1 + 8)) == 65536)
  if not (%3 is Err)
  if %4
  panics
case
  if %1
  if (max(65536, ($1 + 8)) == 65536)
  if (%2 is Err)
  if not (%3 is Err)
  if not %4
  do call "core::ptr::non_null::NonNull::dangling"()
  do %2
  do %3
  do call "alloc::alloc::alloc"(%3@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%3@Ok.0))
  set $0 := %10
  set call "alloc::alloc::alloc"(%3@Ok.0) := %5
  ret op('cast:PointerWithExposedProvenance', %7)
case
  if %1
  if not (max(65536, ($1 + 8)) == 65536)
  if not (%3 is Err)
  if not %4
  do call "core::ptr::non_null::NonNull::dangling"()
  do %3
  do call "alloc::alloc::alloc"(%3@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%3@Ok.0))
  set $0 := %10
  set call "alloc::alloc::alloc"(%3@Ok.0) := %5
  ret op('cast:PointerWithExposedProvenance', %7)
case
  if %1
  if (max(65536, ($1 + 8)) == 65536)
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if not (%3 is Err)
  if not %4
  do call "core::ptr::non_null::NonNull::dangling"()
  do %2
  do %3
  do call "alloc::alloc::alloc"(%3@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%3@Ok.0))
  set $0 := %10
  set call "alloc::alloc::alloc"(%3@Ok.0) := %5
  ret op('cast:PointerWithExposedProvenance', %7)
case
  if %1
  if (max(65536, ($1 + 8)) == 65536)
  if not (%2 is Err)
  if (%2@Ok.0 is Some)
  do call "core::ptr::non_null::NonNull::dangling"()
  do %2
  set $0 := ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %2@Ok.0@Some.0}), end: %11, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + op('cast:PointerExposeProvenance', %2@Ok.0@Some.0) + 7)))})})
  ret %13
case
  if not %1
  if (max(65536, ($1 + 8)) == 65536)
  if (%2 is Err)
  if (%3 is Err)
  panics
case
  if not %1
  if (max(65536, ($1 + 8)) == 65536)
  if (%2 is Err)
  if not (%3 is Err)
  if %4
  panics
case
  if not %1
  if (max(65536, ($1 + 8)) == 65536)
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if (%3 is Err)
  panics
case
  if not %1
  if (max(65536, ($1 + 8)) == 65536)
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if not (%3 is Err)
  if %4
  panics
case
  if not %1
  if not (max(65536, ($1 + 8)) == 65536)
  if (%3 is Err)
  panics
case
  if not %1
  if not (max(65536, ($1 + 8)) == 65536)
  if not (%3 is Err)
  if %4
  panics
case
  if not %1
  if (max(65536, ($1 + 8)) == 65536)
  if (%2 is Err)
  if not (%3 is Err)
  if not %4
  do call "core::ptr::non_null::NonNull::dangling"()
  do %2
  do %3
  do call "alloc::alloc::alloc"(%3@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%3@Ok.0))
  set $0 := %15
  set call "alloc::alloc::alloc"(%3@Ok.0) := %5
  ret op('cast:PointerWithExposedProvenance', %7)
case
  if not %1
  if not (max(65536, ($1 + 8)) == 65536)
  if not (%3 is Err)
  if not %4
  do call "core::ptr::non_null::NonNull::dangling"()
  do %3
  do call "alloc::alloc::alloc"(%3@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%3@Ok.0))
  set $0 := %15
  set call "alloc::alloc::alloc"(%3@Ok.0) := %5
  ret op('cast:PointerWithExposedProvenance', %7)
case
  if not %1
  if (max(65536, ($1 + 8)) == 65536)
  if not (%2 is Err)
  if not (%2@Ok.0 is Some)
  if not (%3 is Err)
  if not %4
  do call "core::ptr::non_null::NonNull::dangling"()
  do %2
  do %3
  do call "alloc::alloc::alloc"(%3@Ok.0)
  do call "*mut T::is_null"(call "alloc::alloc::alloc"(%3@Ok.0))
  set $0 := %15
  set call "alloc::alloc::alloc"(%3@Ok.0) := %5
  ret op('cast:PointerWithExposedProvenance', %7)
case
  if not %1
  if (max(65536, ($1 + 8)) == 65536)
  if not (%2 is Err)
  if (%2@Ok.0 is Some)
  do call "core::ptr::non_null::NonNull::dangling"()
  do %2
  set $0 := ((*$0) with {current_chunk_start: ((*$0).current_chunk_start with {value: %2@Ok.0@Some.0}), end: %11, full_chunks: %14, ptr: ((*$0).ptr with {value: op('cast:PointerWithExposedProvenance', op('BitAnd', op('BitNot', 7), ($1 + op('cast:PointerExposeProvenance', %2@Ok.0@Some.0) + 7)))})})
  ret %13

fn oak_core::memory::arena::SyntaxArena::get_metadata
case
  if (len((*$0).metadata.value) < $1)
  ret new "core::option::Option" None{}
case
  if not (len((*$0).metadata.value) < $1)
  ret new "core::option::Option" Some{0: rv((*$0).metadata.value[($1 - 1)])}

fn oak_core::memory::arena::SyntaxArena::new
case
  do call "core::ptr::non_null::NonNull::dangling"()
  ret new "oak_core::memory::arena::SyntaxArena"{ptr: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, end: new "UnsafeCell"{value: op('cast:PointerWithExposedProvenance', 8)}, full_chunks: new "UnsafeCell"{value: vnew()}, current_chunk_start: new "UnsafeCell"{value: call "core::ptr::non_null::NonNull::dangling"()}, metadata: new "UnsafeCell"{value: vnew()}}

fn oak_core::memory::arena::SyntaxArena::recycle_chunk  [private]
  takes core::ptr::non_null::NonNull<u8>; usize
  let %1 = call "alloc::alloc::dealloc"($0, call "core::alloc::layout::Layout::from_size_align"($1, 8)@Ok.0)
case
  if ($1 == 65536)
  do call "std::thread::local::LocalKey::try_with"(rv(call "std::thread::local::LocalKey::new"(const('oak_core::memory::arena::CHUNK_POOL::{AnonConst#0}', <'for<\'a> fn(core::option::Option<&\'a mut core::option::Option<core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>>>) -> *const core::cell::RefCell<alloc::vec::Vec<core::ptr::non_null::NonNull<u8>>>'>))), clo('oak_core::memory::arena::SyntaxArena::recycle_chunk::{closure#0}', <rv($0)>))
  ret tup{}
case
  if not ($1 == 65536)
  if (call "core::alloc::layout::Layout::from_size_align"($1, 8) is Err)
  panics
case
  if not ($1 == 65536)
  if not (call "core::alloc::layout::Layout::from_size_align"($1, 8) is Err)
  do call "core::alloc::layout::Layout::from_size_align"($1, 8)
  do %1
  set $0 := post(0, %1)
  ret %1
