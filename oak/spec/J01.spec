fn oak_core::lexer::arc_slice_serde::deserialize
  let %1 = call "<triomphe::arc::Arc as core::iter::traits::collect::FromIterator<A>>::from_iter"(call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0)@Ok.0)
case
  if (call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0) is Err)
  do call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0)
  ret new "core::result::Result" Err{0: call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0)@Err.0}
case
  if not (call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0) is Err)
  do call "<alloc::vec::Vec as serde_core::de::Deserialize>::deserialize"($0)
  do %1
  ret new "core::result::Result" Ok{0: %1}

fn oak_core::lexer::arc_slice_serde::serialize
case
  do call "<[T] as serde_core::ser::Serialize>::serialize"((*$0), $1)
  ret call "<[T] as serde_core::ser::Serialize>::serialize"((*$0), $1)

fn oak_core::serde_arc_str::deserialize
case
  if (call "<alloc::string::String as serde_core::de::Deserialize>::deserialize"($0) is Err)
  do call "<alloc::string::String as serde_core::de::Deserialize>::deserialize"($0)
  ret new "core::result::Result" Err{0: call "<alloc::string::String as serde_core::de::Deserialize>::deserialize"($0)@Err.0}
case
  if not (call "<alloc::string::String as serde_core::de::Deserialize>::deserialize"($0) is Err)
  do call "<alloc::string::String as serde_core::de::Deserialize>::deserialize"($0)
  ret new "core::result::Result" Ok{0: call "<alloc::string::String as serde_core::de::Deserialize>::deserialize"($0)@Ok.0}

fn oak_core::serde_arc_str::serialize
case
  do call "<str as serde_core::ser::Serialize>::serialize"((*$0), $1)
  ret call "<str as serde_core::ser::Serialize>::serialize"((*$0), $1)

fn oak_core::serde_range::deserialize
  let %1 = call "serde_core::de::Deserializer::deserialize_struct"($0, "RangeDef", rv(new "[]"{0: "start", 1: "end"}), new "oak_core::serde_range::_::{impl#0}::deserialize::__Visitor"{marker: new "core::marker::PhantomData"{}, lifetime: new "core::marker::PhantomData"{}})
case
  if (%1 is Err)
  do %1
  ret new "core::result::Result" Err{0: %1@Err.0}
case
  if not (%1 is Err)
  do %1
  ret new "core::result::Result" Ok{0: new "range"{start: %1@Ok.0.start, end: %1@Ok.0.end}}

fn oak_core::serde_range::option::deserialize
  let %1 = (call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0)@Ok.0 is Some)
  let %2 = call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0)@Ok.0@Some.0
case
  if (call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0) is Err)
  do call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0)
  ret new "core::result::Result" Err{0: call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0)@Err.0}
case
  if not (call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0) is Err)
  if %1
  do call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0)
  ret new "core::result::Result" Ok{0: new "core::option::Option" Some{0: new "range"{start: %2.start, end: %2.end}}}
case
  if not (call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0) is Err)
  if not %1
  do call "<core::option::Option as serde_core::de::Deserialize>::deserialize"($0)
  ret new "core::result::Result" Ok{0: new "core::option::Option" None{}}

fn oak_core::serde_range::option::serialize
  let %1 = call "<core::option::Option as serde_core::ser::Serialize>::serialize"(rv(new "core::option::Option" Some{0: new "oak_core::serde_range::RangeDefRef"{start: rv((*$0)@Some.0.start), end: rv((*$0)@Some.0.end)}}), $1)
case
  if ((*$0) is Some)
  do %1
  ret %1
case
  if not ((*$0) is Some)
  do call "<core::option::Option as serde_core::ser::Serialize>::serialize"(rv(new "core::option::Option" None{}), $1)
  ret call "<core::option::Option as serde_core::ser::Serialize>::serialize"(rv(new "core::option::Option" None{}), $1)

fn oak_core::serde_range::serialize
  let %1 = (call "serde_core::ser::Serializer::serialize_struct"($1, "RangeDefRef", 2) is Err)
  let %2 = call "serde_core::ser::SerializeStruct::serialize_field"(rv(call "serde_core::ser::Serializer::serialize_struct"($1, "RangeDefRef", 2)@Ok.0), "start", rv(rv((*$0).start)))
  let %3 = call "serde_core::ser::SerializeStruct::serialize_field"(rv(post(0, %2)), "end", rv(rv((*$0).end)))
case
  if %1
  do call "serde_core::ser::Serializer::serialize_struct"($1, "RangeDefRef", 2)
  ret new "core::result::Result" Err{0: call "serde_core::ser::Serializer::serialize_struct"($1, "RangeDefRef", 2)@Err.0}
case
  if not %1
  if not (%2 is Err)
  if not (%3 is Err)
  do call "serde_core::ser::Serializer::serialize_struct"($1, "RangeDefRef", 2)
  do %2
  do %3
  do call "serde_core::ser::SerializeStruct::end"(post(0, %3))
  ret call "serde_core::ser::SerializeStruct::end"(post(0, %3))
case
  if not %1
  if not (%2 is Err)
  if (%3 is Err)
  do call "serde_core::ser::Serializer::serialize_struct"($1, "RangeDefRef", 2)
  do %2
  do %3
  ret new "core::result::Result" Err{0: %3@Err.0}
case
  if not %1
  if (%2 is Err)
  do call "serde_core::ser::Serializer::serialize_struct"($1, "RangeDefRef", 2)
  do %2
  ret new "core::result::Result" Err{0: %2@Err.0}
