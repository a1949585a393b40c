fn oak_core::source::simd::SimdScanner::find_byte
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($1))
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret new "core::option::Option" None{}
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not (call "core::core_simd::masks::Mask::first_set"(%2) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  do call "core::core_simd::masks::Mask::first_set"(%2)
  then v0 := (lv("L0", "v0") + 32)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if ($1 == (*$0)[(lv("L0", "v0") + n("C0"))])
  loop L0 | v0 from 0
  loop C0
  ret new "core::option::Option" Some{0: (lv("L0", "v0") + n("C0"))}
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if (call "core::core_simd::masks::Mask::first_set"(%2) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  do call "core::core_simd::masks::Mask::first_set"(%2)
  ret new "core::option::Option" Some{0: (call "core::core_simd::masks::Mask::first_set"(%2)@Some.0 + lv("L0", "v0"))}

fn oak_core::source::simd::SimdScanner::find_first_of_4
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($1))
  let %3 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($2))
  let %4 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%2, %3)
  let %5 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($3))
  let %6 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%4, %5)
  let %7 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($4))
  let %8 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%6, %7)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret new "core::option::Option" None{}
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not (call "core::core_simd::masks::Mask::first_set"(%8) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  do call "core::core_simd::vector::Simd::splat"($2)
  do %3
  do call "core::core_simd::vector::Simd::splat"($3)
  do %5
  do call "core::core_simd::vector::Simd::splat"($4)
  do %7
  do %4
  do %6
  do %8
  then v0 := (lv("L0", "v0") + 32)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if ($1 == (*$0)[(lv("L0", "v0") + n("C0"))])
  loop L0 | v0 from 0
  loop C0
  ret new "core::option::Option" Some{0: (lv("L0", "v0") + n("C0"))}
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not ($1 == (*$0)[(lv("L0", "v0") + n("C0"))])
  if ((*$0)[(lv("L0", "v0") + n("C0"))] == $2)
  loop L0 | v0 from 0
  loop C0
  ret new "core::option::Option" Some{0: (lv("L0", "v0") + n("C0"))}
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not ($1 == (*$0)[(lv("L0", "v0") + n("C0"))])
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == $2)
  if ((*$0)[(lv("L0", "v0") + n("C0"))] == $3)
  loop L0 | v0 from 0
  loop C0
  ret new "core::option::Option" Some{0: (lv("L0", "v0") + n("C0"))}
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not ($1 == (*$0)[(lv("L0", "v0") + n("C0"))])
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == $2)
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == $3)
  if ((*$0)[(lv("L0", "v0") + n("C0"))] == $4)
  loop L0 | v0 from 0
  loop C0
  ret new "core::option::Option" Some{0: (lv("L0", "v0") + n("C0"))}
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if (call "core::core_simd::masks::Mask::first_set"(%8) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  do call "core::core_simd::vector::Simd::splat"($2)
  do %3
  do call "core::core_simd::vector::Simd::splat"($3)
  do %5
  do call "core::core_simd::vector::Simd::splat"($4)
  do %7
  do %4
  do %6
  do %8
  do call "core::core_simd::masks::Mask::first_set"(%8)
  ret new "core::option::Option" Some{0: (call "core::core_simd::masks::Mask::first_set"(%8)@Some.0 + lv("L0", "v0"))}

fn oak_core::source::simd::SimdScanner::skip_ascii_digits
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_ge"(%1, call "core::core_simd::vector::Simd::splat"(48))
  let %3 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_le"(%1, call "core::core_simd::vector::Simd::splat"(57))
  let %4 = call "<core::core_simd::masks::Mask as core::ops::bit::BitAnd<core::core_simd::masks::Mask>>::bitand"(%2, %3)
  let %5 = call "<core::core_simd::masks::Mask as core::ops::bit::Not>::not"(%4)
  let %6 = call "u8::is_ascii_digit"(rv((*$0)[(lv("L0", "v0") + n("C0"))]))
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret len((*$0))
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not (call "core::core_simd::masks::Mask::first_set"(%5) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"(48)
  do %2
  do call "core::core_simd::vector::Simd::splat"(57)
  do %3
  do %4
  then v0 := (lv("L0", "v0") + 32)
pass C0
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if true(%6)
  loop L0 | v0 from 0
  loop C0
  do %6
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not true(%6)
  loop L0 | v0 from 0
  loop C0
  do %6
  ret (lv("L0", "v0") + n("C0"))
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if (call "core::core_simd::masks::Mask::first_set"(%5) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"(48)
  do %2
  do call "core::core_simd::vector::Simd::splat"(57)
  do %3
  do %4
  do %5
  do call "core::core_simd::masks::Mask::first_set"(%5)
  ret (call "core::core_simd::masks::Mask::first_set"(%5)@Some.0 + lv("L0", "v0"))

fn oak_core::source::simd::SimdScanner::skip_ascii_hexdigits
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_ge"(%1, call "core::core_simd::vector::Simd::splat"(48))
  let %3 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_le"(%1, call "core::core_simd::vector::Simd::splat"(57))
  let %4 = call "<core::core_simd::masks::Mask as core::ops::bit::BitAnd<core::core_simd::masks::Mask>>::bitand"(%2, %3)
  let %5 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_ge"(%1, call "core::core_simd::vector::Simd::splat"(97))
  let %6 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_le"(%1, call "core::core_simd::vector::Simd::splat"(102))
  let %7 = call "<core::core_simd::masks::Mask as core::ops::bit::BitAnd<core::core_simd::masks::Mask>>::bitand"(%5, %6)
  let %8 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%4, %7)
  let %9 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_ge"(%1, call "core::core_simd::vector::Simd::splat"(65))
  let %10 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_le"(%1, call "core::core_simd::vector::Simd::splat"(70))
  let %11 = call "<core::core_simd::masks::Mask as core::ops::bit::BitAnd<core::core_simd::masks::Mask>>::bitand"(%9, %10)
  let %12 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%8, %11)
  let %13 = call "<core::core_simd::masks::Mask as core::ops::bit::Not>::not"(%12)
  let %14 = (call "core::core_simd::masks::Mask::first_set"(%13) is Some)
  let %15 = call "u8::is_ascii_hexdigit"(rv((*$0)[(lv("L0", "v0") + n("C0"))]))
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret len((*$0))
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not %14
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"(48)
  do %2
  do call "core::core_simd::vector::Simd::splat"(57)
  do %3
  do %4
  do call "core::core_simd::vector::Simd::splat"(97)
  do %5
  do call "core::core_simd::vector::Simd::splat"(102)
  do %6
  do %7
  do call "core::core_simd::vector::Simd::splat"(65)
  do %9
  do call "core::core_simd::vector::Simd::splat"(70)
  do %10
  do %11
  do %8
  do %12
  then v0 := (lv("L0", "v0") + 32)
pass C0
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if true(%15)
  loop L0 | v0 from 0
  loop C0
  do %15
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not true(%15)
  loop L0 | v0 from 0
  loop C0
  do %15
  ret (lv("L0", "v0") + n("C0"))
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if %14
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"(48)
  do %2
  do call "core::core_simd::vector::Simd::splat"(57)
  do %3
  do %4
  do call "core::core_simd::vector::Simd::splat"(97)
  do %5
  do call "core::core_simd::vector::Simd::splat"(102)
  do %6
  do %7
  do call "core::core_simd::vector::Simd::splat"(65)
  do %9
  do call "core::core_simd::vector::Simd::splat"(70)
  do %10
  do %11
  do %8
  do %12
  do %13
  do call "core::core_simd::masks::Mask::first_set"(%13)
  ret (call "core::core_simd::masks::Mask::first_set"(%13)@Some.0 + lv("L0", "v0"))

fn oak_core::source::simd::SimdScanner::skip_ascii_ident_continue
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_ge"(%1, call "core::core_simd::vector::Simd::splat"(97))
  let %3 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_le"(%1, call "core::core_simd::vector::Simd::splat"(122))
  let %4 = call "<core::core_simd::masks::Mask as core::ops::bit::BitAnd<core::core_simd::masks::Mask>>::bitand"(%2, %3)
  let %5 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_ge"(%1, call "core::core_simd::vector::Simd::splat"(65))
  let %6 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_le"(%1, call "core::core_simd::vector::Simd::splat"(90))
  let %7 = call "<core::core_simd::masks::Mask as core::ops::bit::BitAnd<core::core_simd::masks::Mask>>::bitand"(%5, %6)
  let %8 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%4, %7)
  let %9 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_ge"(%1, call "core::core_simd::vector::Simd::splat"(48))
  let %10 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::ord::SimdPartialOrd>::simd_le"(%1, call "core::core_simd::vector::Simd::splat"(57))
  let %11 = call "<core::core_simd::masks::Mask as core::ops::bit::BitAnd<core::core_simd::masks::Mask>>::bitand"(%9, %10)
  let %12 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%8, %11)
  let %13 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"(95))
  let %14 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%12, %13)
  let %15 = call "<core::core_simd::masks::Mask as core::ops::bit::Not>::not"(%14)
  let %16 = (call "core::core_simd::masks::Mask::first_set"(%15) is Some)
  let %17 = call "u8::is_ascii_alphanumeric"(rv((*$0)[(lv("L0", "v0") + n("C0"))]))
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret len((*$0))
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not %16
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"(97)
  do %2
  do call "core::core_simd::vector::Simd::splat"(122)
  do %3
  do %4
  do call "core::core_simd::vector::Simd::splat"(65)
  do %5
  do call "core::core_simd::vector::Simd::splat"(90)
  do %6
  do %7
  do call "core::core_simd::vector::Simd::splat"(48)
  do %9
  do call "core::core_simd::vector::Simd::splat"(57)
  do %10
  do %11
  do call "core::core_simd::vector::Simd::splat"(95)
  do %13
  do %8
  do %12
  do %14
  then v0 := (lv("L0", "v0") + 32)
pass C0
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if true(%17)
  loop L0 | v0 from 0
  loop C0
  do %17
pass C0
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not true(%17)
  if ((*$0)[(lv("L0", "v0") + n("C0"))] == 95)
  loop L0 | v0 from 0
  loop C0
  do %17
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not true(%17)
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == 95)
  loop L0 | v0 from 0
  loop C0
  do %17
  ret (lv("L0", "v0") + n("C0"))
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if %16
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"(97)
  do %2
  do call "core::core_simd::vector::Simd::splat"(122)
  do %3
  do %4
  do call "core::core_simd::vector::Simd::splat"(65)
  do %5
  do call "core::core_simd::vector::Simd::splat"(90)
  do %6
  do %7
  do call "core::core_simd::vector::Simd::splat"(48)
  do %9
  do call "core::core_simd::vector::Simd::splat"(57)
  do %10
  do %11
  do call "core::core_simd::vector::Simd::splat"(95)
  do %13
  do %8
  do %12
  do %14
  do %15
  do call "core::core_simd::masks::Mask::first_set"(%15)
  ret (call "core::core_simd::masks::Mask::first_set"(%15)@Some.0 + lv("L0", "v0"))

fn oak_core::source::simd::SimdScanner::skip_ascii_whitespace
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"(32))
  let %3 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"(9))
  let %4 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%2, %3)
  let %5 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"(10))
  let %6 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%4, %5)
  let %7 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"(13))
  let %8 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%6, %7)
  let %9 = call "<core::core_simd::masks::Mask as core::ops::bit::Not>::not"(%8)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret len((*$0))
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not (call "core::core_simd::masks::Mask::first_set"(%9) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"(32)
  do %2
  do call "core::core_simd::vector::Simd::splat"(9)
  do %3
  do call "core::core_simd::vector::Simd::splat"(10)
  do %5
  do call "core::core_simd::vector::Simd::splat"(13)
  do %7
  do %4
  do %6
  do %8
  then v0 := (lv("L0", "v0") + 32)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == 32)
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == 9)
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == 10)
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == 13)
  loop L0 | v0 from 0
  loop C0
  ret (lv("L0", "v0") + n("C0"))
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if (call "core::core_simd::masks::Mask::first_set"(%9) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"(32)
  do %2
  do call "core::core_simd::vector::Simd::splat"(9)
  do %3
  do call "core::core_simd::vector::Simd::splat"(10)
  do %5
  do call "core::core_simd::vector::Simd::splat"(13)
  do %7
  do %4
  do %6
  do %8
  do %9
  do call "core::core_simd::masks::Mask::first_set"(%9)
  ret (call "core::core_simd::masks::Mask::first_set"(%9)@Some.0 + lv("L0", "v0"))

fn oak_core::source::simd::SimdScanner::skip_byte
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($1))
  let %3 = call "<core::core_simd::masks::Mask as core::ops::bit::Not>::not"(%2)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret len((*$0))
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not (call "core::core_simd::masks::Mask::first_set"(%3) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  then v0 := (lv("L0", "v0") + 32)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not ($1 == (*$0)[(lv("L0", "v0") + n("C0"))])
  loop L0 | v0 from 0
  loop C0
  ret (lv("L0", "v0") + n("C0"))
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if (call "core::core_simd::masks::Mask::first_set"(%3) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  do %3
  do call "core::core_simd::masks::Mask::first_set"(%3)
  ret (call "core::core_simd::masks::Mask::first_set"(%3)@Some.0 + lv("L0", "v0"))

fn oak_core::source::simd::SimdScanner::skip_two_bytes
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($1))
  let %3 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($2))
  let %4 = call "<core::core_simd::masks::Mask as core::ops::bit::BitOr<core::core_simd::masks::Mask>>::bitor"(%2, %3)
  let %5 = call "<core::core_simd::masks::Mask as core::ops::bit::Not>::not"(%4)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret len((*$0))
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not (call "core::core_simd::masks::Mask::first_set"(%5) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  do call "core::core_simd::vector::Simd::splat"($2)
  do %3
  do %4
  then v0 := (lv("L0", "v0") + 32)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if not ($1 == (*$0)[(lv("L0", "v0") + n("C0"))])
  if not ((*$0)[(lv("L0", "v0") + n("C0"))] == $2)
  loop L0 | v0 from 0
  loop C0
  ret (lv("L0", "v0") + n("C0"))
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if (call "core::core_simd::masks::Mask::first_set"(%5) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  do call "core::core_simd::vector::Simd::splat"($2)
  do %3
  do %4
  do %5
  do call "core::core_simd::masks::Mask::first_set"(%5)
  ret (call "core::core_simd::masks::Mask::first_set"(%5)@Some.0 + lv("L0", "v0"))

fn oak_core::source::simd::SimdScanner::skip_until
  let %1 = call "core::core_simd::vector::Simd::from_slice"(rv(slice((*$0), lv("L0", "v0"), (lv("L0", "v0") + 32))))
  let %2 = call "<core::core_simd::vector::Simd as core::core_simd::simd::cmp::eq::SimdPartialEq>::simd_eq"(%1, call "core::core_simd::vector::Simd::splat"($1))
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  loop L0 | v0 from 0
  loop C0
  ret len((*$0))
pass L0
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if not (call "core::core_simd::masks::Mask::first_set"(%2) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  then v0 := (lv("L0", "v0") + 32)
case
  if (len((*$0)) < lv("L0", "v0") + 32)
  if not (len((*$0)) < lv("L0", "v0") + n("C0") + 1)
  if ($1 == (*$0)[(lv("L0", "v0") + n("C0"))])
  loop L0 | v0 from 0
  loop C0
  ret (lv("L0", "v0") + n("C0"))
case
  if not (len((*$0)) < lv("L0", "v0") + 32)
  if (call "core::core_simd::masks::Mask::first_set"(%2) is Some)
  loop L0 | v0 from 0
  do %1
  do call "core::core_simd::vector::Simd::splat"($1)
  do %2
  do call "core::core_simd::masks::Mask::first_set"(%2)
  ret (call "core::core_simd::masks::Mask::first_set"(%2)@Some.0 + lv("L0", "v0"))
