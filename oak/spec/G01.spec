fn <oak_visualize::geometry::Point as core::default::Default>::default
case
  ret new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}

fn <oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add
case
  ret new "oak_visualize::geometry::Point"{x: op('fAdd', $0.x, $1.x), y: op('fAdd', $0.y, $1.y)}

fn <oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub
case
  ret new "oak_visualize::geometry::Point"{x: op('fSub', $0.x, $1.x), y: op('fSub', $0.y, $1.y)}

fn <oak_visualize::geometry::Rect as core::default::Default>::default
case
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}

fn <oak_visualize::geometry::Size as core::default::Default>::default
case
  ret new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}

fn <oak_visualize::geometry::Transform as core::default::Default>::default
case
  ret new "oak_visualize::geometry::Transform"{a: const('float', '3ff0000000000000'), b: const('float', '0'), c: const('float', '0'), d: const('float', '3ff0000000000000'), e: const('float', '0'), f: const('float', '0')}

fn oak_visualize::geometry::Point::distance_to
  let %1 = call "f64::sqrt"(op('fAdd', op('fMul', op('fSub', (*$0).x, (*$1).x), op('fSub', (*$0).x, (*$1).x)), op('fMul', op('fSub', (*$0).y, (*$1).y), op('fSub', (*$0).y, (*$1).y))))
case
  do %1
  ret %1

fn oak_visualize::geometry::Point::new
case
  ret new "oak_visualize::geometry::Point"{x: $0, y: $1}

fn oak_visualize::geometry::Point::origin
case
  ret new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}

fn oak_visualize::geometry::Point::scale
case
  ret new "oak_visualize::geometry::Point"{x: op('fMul', (*$0).x, $1), y: op('fMul', $1, (*$0).y)}

fn oak_visualize::geometry::Point::translate
case
  ret new "oak_visualize::geometry::Point"{x: op('fAdd', (*$0).x, $1), y: op('fAdd', (*$0).y, $2)}

fn oak_visualize::geometry::Rect::bottom_left
case
  ret new "oak_visualize::geometry::Point"{x: (*$0).origin.x, y: op('fAdd', (*$0).origin.y, (*$0).size.height)}

fn oak_visualize::geometry::Rect::bottom_right
case
  ret new "oak_visualize::geometry::Point"{x: op('fAdd', (*$0).origin.x, (*$0).size.width), y: op('fAdd', (*$0).origin.y, (*$0).size.height)}

fn oak_visualize::geometry::Rect::center
case
  ret new "oak_visualize::geometry::Point"{x: op('fAdd', (*$0).origin.x, op('fDiv', (*$0).size.width, const('float', '4000000000000000'))), y: op('fAdd', (*$0).origin.y, op('fDiv', (*$0).size.height, const('float', '4000000000000000')))}

fn oak_visualize::geometry::Rect::contains_point
case
  if ltr($1.x, (*$0).origin.x)
  ret 0
case
  if not ltr($1.x, (*$0).origin.x)
  if ltr(op('fAdd', (*$0).origin.x, (*$0).size.width), $1.x)
  ret 0
case
  if not ltr($1.x, (*$0).origin.x)
  if not ltr(op('fAdd', (*$0).origin.x, (*$0).size.width), $1.x)
  if ltr($1.y, (*$0).origin.y)
  ret 0
case
  if not ltr($1.x, (*$0).origin.x)
  if not ltr(op('fAdd', (*$0).origin.x, (*$0).size.width), $1.x)
  if not ltr($1.y, (*$0).origin.y)
  ret !ltr(op('fAdd', (*$0).origin.y, (*$0).size.height), $1.y)

fn oak_visualize::geometry::Rect::expand
case
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: op('fSub', (*$0).origin.x, $1), y: op('fSub', (*$0).origin.y, $1)}, size: new "oak_visualize::geometry::Size"{width: op('fAdd', (*$0).size.width, op('fMul', $1, const('float', '4000000000000000'))), height: op('fAdd', (*$0).size.height, op('fMul', $1, const('float', '4000000000000000')))}}

fn oak_visualize::geometry::Rect::from_points
case
  do call "f64::min"($0.x, $1.x)
  do call "f64::min"($0.y, $1.y)
  do call "f64::max"($0.x, $1.x)
  do call "f64::max"($0.y, $1.y)
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: call "f64::min"($0.x, $1.x), y: call "f64::min"($0.y, $1.y)}, size: new "oak_visualize::geometry::Size"{width: op('fSub', call "f64::max"($0.x, $1.x), call "f64::min"($0.x, $1.x)), height: op('fSub', call "f64::max"($0.y, $1.y), call "f64::min"($0.y, $1.y))}}

fn oak_visualize::geometry::Rect::from_xywh
case
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: $0, y: $1}, size: new "oak_visualize::geometry::Size"{width: $2, height: $3}}

fn oak_visualize::geometry::Rect::height
case
  ret (*$0).size.height

fn oak_visualize::geometry::Rect::intersects
  let %1 = ltr(op('fAdd', (*$0).origin.x, (*$0).size.width), (*$1).origin.x)
  let %2 = ltr(op('fAdd', (*$1).origin.x, (*$1).size.width), (*$0).origin.x)
  let %3 = ltr(op('fAdd', (*$0).origin.y, (*$0).size.height), (*$1).origin.y)
case
  if %1
  ret 0
case
  if not %1
  if %2
  ret 0
case
  if not %1
  if not %2
  if %3
  ret 0
case
  if not %1
  if not %2
  if not %3
  ret !ltr(op('fAdd', (*$1).origin.y, (*$1).size.height), (*$0).origin.y)

fn oak_visualize::geometry::Rect::max_x
case
  ret op('fAdd', (*$0).origin.x, (*$0).size.width)

fn oak_visualize::geometry::Rect::max_y
case
  ret op('fAdd', (*$0).origin.y, (*$0).size.height)

fn oak_visualize::geometry::Rect::min_x
case
  ret (*$0).origin.x

fn oak_visualize::geometry::Rect::min_y
case
  ret (*$0).origin.y

fn oak_visualize::geometry::Rect::new
case
  ret new "oak_visualize::geometry::Rect"{origin: $0, size: $1}

fn oak_visualize::geometry::Rect::scale
case
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: op('fMul', $1, (*$0).origin.x), y: op('fMul', $1, (*$0).origin.y)}, size: new "oak_visualize::geometry::Size"{width: op('fMul', $1, (*$0).size.width), height: op('fMul', $1, (*$0).size.height)}}

fn oak_visualize::geometry::Rect::top_left
case
  ret (*$0).origin

fn oak_visualize::geometry::Rect::top_right
case
  ret new "oak_visualize::geometry::Point"{x: op('fAdd', (*$0).origin.x, (*$0).size.width), y: (*$0).origin.y}

fn oak_visualize::geometry::Rect::translate
case
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: op('fAdd', $1, (*$0).origin.x), y: op('fAdd', $2, (*$0).origin.y)}, size: (*$0).size}

fn oak_visualize::geometry::Rect::union
  let %1 = call "f64::max"(op('fAdd', (*$0).origin.x, (*$0).size.width), op('fAdd', (*$1).origin.x, (*$1).size.width))
  let %2 = call "f64::max"(op('fAdd', (*$0).origin.y, (*$0).size.height), op('fAdd', (*$1).origin.y, (*$1).size.height))
case
  do call "f64::min"((*$0).origin.x, (*$1).origin.x)
  do call "f64::min"((*$0).origin.y, (*$1).origin.y)
  do %1
  do %2
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: call "f64::min"((*$0).origin.x, (*$1).origin.x), y: call "f64::min"((*$0).origin.y, (*$1).origin.y)}, size: new "oak_visualize::geometry::Size"{width: op('fSub', %1, call "f64::min"((*$0).origin.x, (*$1).origin.x)), height: op('fSub', %2, call "f64::min"((*$0).origin.y, (*$1).origin.y))}}

fn oak_visualize::geometry::Rect::width
case
  ret (*$0).size.width

fn oak_visualize::geometry::Rect::x
case
  ret (*$0).origin.x

fn oak_visualize::geometry::Rect::y
case
  ret (*$0).origin.y

fn oak_visualize::geometry::Size::area
case
  ret op('fMul', (*$0).width, (*$0).height)

fn oak_visualize::geometry::Size::aspect_ratio
case
  if ((*$0).height === const('float', '0'))
  ret const('float', '7ff0000000000000')
case
  if not ((*$0).height === const('float', '0'))
  ret op('fDiv', (*$0).width, (*$0).height)

fn oak_visualize::geometry::Size::new
case
  ret new "oak_visualize::geometry::Size"{width: $0, height: $1}

fn oak_visualize::geometry::Size::scale
case
  ret new "oak_visualize::geometry::Size"{width: op('fMul', $1, (*$0).width), height: op('fMul', $1, (*$0).height)}

fn oak_visualize::geometry::Size::scale_xy
case
  ret new "oak_visualize::geometry::Size"{width: op('fMul', $1, (*$0).width), height: op('fMul', $2, (*$0).height)}

fn oak_visualize::geometry::Size::square
case
  ret new "oak_visualize::geometry::Size"{width: $0, height: $0}

fn oak_visualize::geometry::Transform::compose
case
  ret new "oak_visualize::geometry::Transform"{a: op('fAdd', op('fMul', (*$0).a, (*$1).a), op('fMul', (*$0).b, (*$1).c)), b: op('fAdd', op('fMul', (*$0).a, (*$1).b), op('fMul', (*$0).b, (*$1).d)), c: op('fAdd', op('fMul', (*$1).a, (*$0).c), op('fMul', (*$1).c, (*$0).d)), d: op('fAdd', op('fMul', (*$1).b, (*$0).c), op('fMul', (*$1).d, (*$0).d)), e: op('fAdd', op('fAdd', op('fMul', (*$1).a, (*$0).e), op('fMul', (*$1).c, (*$0).f)), (*$1).e), f: op('fAdd', op('fAdd', op('fMul', (*$1).b, (*$0).e), op('fMul', (*$1).d, (*$0).f)), (*$1).f)}

fn oak_visualize::geometry::Transform::identity
case
  ret new "oak_visualize::geometry::Transform"{a: const('float', '3ff0000000000000'), b: const('float', '0'), c: const('float', '0'), d: const('float', '3ff0000000000000'), e: const('float', '0'), f: const('float', '0')}

fn oak_visualize::geometry::Transform::rotate
case
  do call "f64::cos"($0)
  do call "f64::sin"($0)
  ret new "oak_visualize::geometry::Transform"{a: call "f64::cos"($0), b: call "f64::sin"($0), c: (-call "f64::sin"($0)), d: call "f64::cos"($0), e: const('float', '0'), f: const('float', '0')}

fn oak_visualize::geometry::Transform::scale
case
  ret new "oak_visualize::geometry::Transform"{a: $0, b: const('float', '0'), c: const('float', '0'), d: $1, e: const('float', '0'), f: const('float', '0')}

fn oak_visualize::geometry::Transform::transform_point
case
  ret new "oak_visualize::geometry::Point"{x: op('fAdd', (*$0).e, op('fAdd', op('fMul', $1.x, (*$0).a), op('fMul', $1.y, (*$0).c))), y: op('fAdd', (*$0).f, op('fAdd', op('fMul', $1.x, (*$0).b), op('fMul', $1.y, (*$0).d)))}

fn oak_visualize::geometry::Transform::translate
case
  ret new "oak_visualize::geometry::Transform"{a: const('float', '3ff0000000000000'), b: const('float', '0'), c: const('float', '0'), d: const('float', '3ff0000000000000'), e: $0, f: $1}
