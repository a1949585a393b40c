fn <oak_core::tree::green_tree::GreenTree as oak_visualize::Visualize>::visualize
  given <oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from
  given <oak_visualize::tree::TreeNode as oak_visualize::Visualize>::visualize
case
  do call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from"($0)
  do call "<oak_visualize::tree::TreeNode as oak_visualize::Visualize>::visualize"(rv(call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from"($0)))
  ret call "<oak_visualize::tree::TreeNode as oak_visualize::Visualize>::visualize"(rv(call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from"($0)))

fn <oak_core::tree::red_tree::RedTree as oak_visualize::Visualize>::visualize
  given <oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::red_tree::RedTree>>::from
  given <oak_visualize::tree::TreeNode as oak_visualize::Visualize>::visualize
case
  do call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::red_tree::RedTree>>::from"($0)
  do call "<oak_visualize::tree::TreeNode as oak_visualize::Visualize>::visualize"(rv(call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::red_tree::RedTree>>::from"($0)))
  ret call "<oak_visualize::tree::TreeNode as oak_visualize::Visualize>::visualize"(rv(call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::red_tree::RedTree>>::from"($0)))

fn <oak_visualize::graph::Graph as oak_visualize::Visualize>::visualize
  given oak_visualize::graph::GraphLayout::new
  given oak_visualize::graph::GraphLayout::visualize
case
  do call "oak_visualize::graph::GraphLayout::new"()
  do call "oak_visualize::graph::GraphLayout::visualize"(rv(call "oak_visualize::graph::GraphLayout::new"()), $0)
  ret call "oak_visualize::graph::GraphLayout::visualize"(rv(call "oak_visualize::graph::GraphLayout::new"()), $0)

fn <oak_visualize::layout::ForceDirectedLayout as core::default::Default>::default
case
  ret new "oak_visualize::layout::ForceDirectedLayout"{iterations: 100, spring_strength: const('float', '3fb999999999999a'), repulsion_strength: const('float', '408f400000000000'), damping: const('float', '3feccccccccccccd')}

fn <oak_visualize::layout::ForceDirectedLayout as oak_visualize::layout::LayoutEngine>::layout
  given <oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add
  given <oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub
  given oak_visualize::geometry::Point::distance_to
  given oak_visualize::geometry::Point::new
  given oak_visualize::geometry::Point::origin
  given oak_visualize::geometry::Rect::center
  given oak_visualize::geometry::Rect::new
  given oak_visualize::layout::Layout::add_edge
  given oak_visualize::layout::Layout::add_node
  given oak_visualize::layout::Layout::new
  let %1 = op('fDiv', op('fMul', op('fMul', const('float', '4000000000000000'), const('float', '400921fb54442d18')), op('cast:IntToFloat', n("L0"))), op('cast:IntToFloat', len((*$1))))
  let %2 = call "oak_visualize::geometry::Point::new"(op('fMul', const('float', '4059000000000000'), call "f64::cos"(%1)), op('fMul', const('float', '4059000000000000'), call "f64::sin"(%1)))
  let %3 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(hget(lv("L1", "v0"), (*$2)[n("L3")].to)@Some.0, hget(lv("L1", "v0"), (*$2)[n("L3")].from)@Some.0)
  let %4 = call "oak_visualize::geometry::Point::distance_to"(rv(hget(lv("L1", "v0"), (*$2)[n("L3")].from)@Some.0), rv(hget(lv("L1", "v0"), (*$2)[n("L3")].to)@Some.0))
  let %5 = call "oak_visualize::geometry::Point::new"(op('fDiv', %3.x, %4), op('fDiv', %3.y, %4))
  let %6 = op('fMul', (*$0).spring_strength, op('fSub', %4, (*$3).horizontal_spacing))
  let %7 = call "oak_visualize::geometry::Point::new"(op('fMul', %5.x, %6), op('fMul', %6, %5.y))
  let %8 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(hget(lv("L3", "v0"), (*$2)[n("L3")].from)@Some.0, %7)
  let %9 = hget(hins(lv("L3", "v0"), (*$2)[n("L3")].from, %8), (*$2)[n("L3")].to)
  let %10 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%9@Some.0, %7)
  let %11 = call "oak_visualize::geometry::Point::new"(op('fAdd', op('fMul', (*$0).damping, hget(lv("L4", "v1"), (*$1)[n("L4")].id)@Some.0.x), hget(lv("L3", "v0"), (*$1)[n("L4")].id)@Some.0.x), op('fAdd', op('fMul', (*$0).damping, hget(lv("L4", "v1"), (*$1)[n("L4")].id)@Some.0.y), hget(lv("L3", "v0"), (*$1)[n("L4")].id)@Some.0.y))
  let %12 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(hget(lv("L4", "v0"), (*$1)[n("L4")].id)@Some.0, %11)
  let %13 = call "oak_visualize::geometry::Point::new"(op('fSub', hget(lv("L1", "v0"), (*$1)[n("L2")].id)@Some.0.x, op('fDiv', (*$1)[n("L2")].size.width, const('float', '4000000000000000'))), op('fSub', hget(lv("L1", "v0"), (*$1)[n("L2")].id)@Some.0.y, op('fDiv', (*$1)[n("L2")].size.height, const('float', '4000000000000000'))))
  let %14 = call "oak_visualize::geometry::Rect::new"(%13, (*$1)[n("L2")].size)
  let %15 = call "oak_visualize::layout::Layout::add_node"(rv(lv("L2", "v0")), (*$1)[n("L2")].id, %14)
  let %16 = call "oak_visualize::geometry::Rect::center"(rv(hget(lv("L3", "v0").nodes, (*$2)[n("L3")].from)@Some.0.rect))
  let %17 = call "oak_visualize::geometry::Rect::center"(rv(hget(lv("L3", "v0").nodes, (*$2)[n("L3")].to)@Some.0.rect))
  let %18 = call "oak_visualize::layout::Layout::add_edge"(rv(lv("L3", "v0")), new "oak_visualize::layout::Edge"{from: (*$2)[n("L3")].from, to: (*$2)[n("L3")].to, points: vpush(vpush(vnew(), %16), %17), label: (*$2)[n("L3")].label})
  let %19 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(hget(lv("L1", "v0"), (*$2)[n("L4")].to)@Some.0, hget(lv("L1", "v0"), (*$2)[n("L4")].from)@Some.0)
  let %20 = call "oak_visualize::geometry::Point::distance_to"(rv(hget(lv("L1", "v0"), (*$2)[n("L4")].from)@Some.0), rv(hget(lv("L1", "v0"), (*$2)[n("L4")].to)@Some.0))
  let %21 = call "oak_visualize::geometry::Point::new"(op('fDiv', %19.x, %20), op('fDiv', %19.y, %20))
  let %22 = op('fMul', (*$0).spring_strength, op('fSub', %20, (*$3).horizontal_spacing))
  let %23 = call "oak_visualize::geometry::Point::new"(op('fMul', %21.x, %22), op('fMul', %22, %21.y))
  let %24 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(hget(lv("L4", "v0"), (*$2)[n("L4")].from)@Some.0, %23)
  let %25 = hget(hins(lv("L4", "v0"), (*$2)[n("L4")].from, %24), (*$2)[n("L4")].to)
  let %26 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%25@Some.0, %23)
  let %27 = (hget(lv("L1", "v0"), (*$1)[(n("L3") + n("L4") + 1)].id) is Some)
  let %28 = hget(lv("L1", "v0"), (*$1)[(n("L3") + n("L4") + 1)].id)@Some.0
  let %29 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(hget(lv("L1", "v0"), (*$1)[n("L3")].id)@Some.0, %28)
  let %30 = call "oak_visualize::geometry::Point::distance_to"(rv(hget(lv("L1", "v0"), (*$1)[n("L3")].id)@Some.0), rv(%28))
  let %31 = call "oak_visualize::geometry::Point::new"(op('fDiv', %29.x, call "f64::max"(%30, const('float', '3ff0000000000000'))), op('fDiv', %29.y, call "f64::max"(%30, const('float', '3ff0000000000000'))))
  let %32 = op('fDiv', (*$0).repulsion_strength, op('fMul', call "f64::max"(%30, const('float', '3ff0000000000000')), call "f64::max"(%30, const('float', '3ff0000000000000'))))
  let %33 = call "oak_visualize::geometry::Point::new"(op('fMul', %31.x, %32), op('fMul', %32, %31.y))
  let %34 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(hget(lv("L4", "v0"), (*$1)[n("L3")].id)@Some.0, %33)
  let %35 = hget(hins(lv("L4", "v0"), (*$1)[n("L3")].id, %34), (*$1)[(n("L3") + n("L4") + 1)].id)
  let %36 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%35@Some.0, %33)
case
  if (len((*$1)) == 0)
  do call "oak_visualize::layout::Layout::new"()
  ret new "core::result::Result" Ok{0: call "oak_visualize::layout::Layout::new"()}
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if ((*$0).iterations < n("L1") + 1)
  if (len((*$1)) < n("L2") + 1)
  if (len((*$2)) < n("L3") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do call "oak_visualize::layout::Layout::new"()
  ret new "core::result::Result" Ok{0: lv("L3", "v0")}
pass L0
  if not (len((*$1)) < n("L0") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  do %2
  do call "oak_visualize::geometry::Point::origin"()
  then v0 := hins(lv("L0", "v0"), (*$1)[n("L0")].id, %2)
  then v1 := hins(lv("L0", "v1"), (*$1)[n("L0")].id, call "oak_visualize::geometry::Point::origin"())
pass L1
  if not ((*$0).iterations < n("L1") + 1)
  if (len((*$1)) < n("LayoutEngine>::layout#2") + 1)
  if (len((*$1)) < n("L2") + 1)
  if (len((*$2)) < n("L3") + 1)
  if (len((*$1)) < n("L4") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L2
  if not (len((*$1)) < n("L2") + 1)
  if (len((*$1)) < n("L2") + n("LayoutEngine>::layout#4") + 2)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  then v0 := lv("LayoutEngine>::layout#4", "forces")
pass L3
  if not (len((*$2)) < n("L3") + 1)
  if (hget(lv("L1", "v0"), (*$2)[n("L3")].from) is Some)
  if (hget(lv("L1", "v0"), (*$2)[n("L3")].to) is Some)
  if (hget(lv("L3", "v0"), (*$2)[n("L3")].from) is Some)
  if (%9 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  do %3
  do %4
  do %5
  do %7
  do %8
  do %10
  then v0 := hins(hins(lv("L3", "v0"), (*$2)[n("L3")].from, %8), (*$2)[n("L3")].to, %10)
pass L3
  if not (len((*$2)) < n("L3") + 1)
  if (hget(lv("L1", "v0"), (*$2)[n("L3")].from) is Some)
  if not (hget(lv("L1", "v0"), (*$2)[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$2)) < n("L3") + 1)
  if not (hget(lv("L1", "v0"), (*$2)[n("L3")].from) is Some)
  if (hget(lv("L1", "v0"), (*$2)[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$2)) < n("L3") + 1)
  if not (hget(lv("L1", "v0"), (*$2)[n("L3")].from) is Some)
  if not (hget(lv("L1", "v0"), (*$2)[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L4
  if not (len((*$1)) < n("L4") + 1)
  if (hget(lv("L3", "v0"), (*$1)[n("L4")].id) is Some)
  if (hget(lv("L4", "v1"), (*$1)[n("L4")].id) is Some)
  if (hget(lv("L4", "v0"), (*$1)[n("L4")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  do %11
  do %12
  then v0 := hins(lv("L4", "v0"), (*$1)[n("L4")].id, %12)
  then v1 := hins(lv("L4", "v1"), (*$1)[n("L4")].id, %11)
pass L4
  if not (len((*$1)) < n("L4") + 1)
  if (hget(lv("L3", "v0"), (*$1)[n("L4")].id) is Some)
  if (hget(lv("L4", "v1"), (*$1)[n("L4")].id) is Some)
  if not (hget(lv("L4", "v0"), (*$1)[n("L4")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len((*$1)) < n("L4") + 1)
  if (hget(lv("L3", "v0"), (*$1)[n("L4")].id) is Some)
  if not (hget(lv("L4", "v1"), (*$1)[n("L4")].id) is Some)
  if (hget(lv("L4", "v0"), (*$1)[n("L4")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len((*$1)) < n("L4") + 1)
  if (hget(lv("L3", "v0"), (*$1)[n("L4")].id) is Some)
  if not (hget(lv("L4", "v1"), (*$1)[n("L4")].id) is Some)
  if not (hget(lv("L4", "v0"), (*$1)[n("L4")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len((*$1)) < n("L4") + 1)
  if not (hget(lv("L3", "v0"), (*$1)[n("L4")].id) is Some)
  if (hget(lv("L4", "v1"), (*$1)[n("L4")].id) is Some)
  if (hget(lv("L4", "v0"), (*$1)[n("L4")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len((*$1)) < n("L4") + 1)
  if not (hget(lv("L3", "v0"), (*$1)[n("L4")].id) is Some)
  if (hget(lv("L4", "v1"), (*$1)[n("L4")].id) is Some)
  if not (hget(lv("L4", "v0"), (*$1)[n("L4")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len((*$1)) < n("L4") + 1)
  if not (hget(lv("L3", "v0"), (*$1)[n("L4")].id) is Some)
  if not (hget(lv("L4", "v1"), (*$1)[n("L4")].id) is Some)
  if (hget(lv("L4", "v0"), (*$1)[n("L4")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len((*$1)) < n("L4") + 1)
  if not (hget(lv("L3", "v0"), (*$1)[n("L4")].id) is Some)
  if not (hget(lv("L4", "v1"), (*$1)[n("L4")].id) is Some)
  if not (hget(lv("L4", "v0"), (*$1)[n("L4")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("LayoutEngine>::layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L2
  if not (len((*$1)) < n("L2") + 1)
  if (hget(lv("L1", "v0"), (*$1)[n("L2")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %13
  do %14
  do %15
  then v0 := post(0, %15)
pass L2
  if not (len((*$1)) < n("L2") + 1)
  if not (hget(lv("L1", "v0"), (*$1)[n("L2")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  then v0 := lv("L2", "v0")
pass L3
  if not (len((*$2)) < n("L3") + 1)
  if (hget(lv("L3", "v0").nodes, (*$2)[n("L3")].from) is Some)
  if (hget(lv("L3", "v0").nodes, (*$2)[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do %16
  do %17
  do %18
  then v0 := post(0, %18)
pass L3
  if not (len((*$2)) < n("L3") + 1)
  if (hget(lv("L3", "v0").nodes, (*$2)[n("L3")].from) is Some)
  if not (hget(lv("L3", "v0").nodes, (*$2)[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$2)) < n("L3") + 1)
  if not (hget(lv("L3", "v0").nodes, (*$2)[n("L3")].from) is Some)
  if (hget(lv("L3", "v0").nodes, (*$2)[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$2)) < n("L3") + 1)
  if not (hget(lv("L3", "v0").nodes, (*$2)[n("L3")].from) is Some)
  if not (hget(lv("L3", "v0").nodes, (*$2)[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if not ((*$0).iterations < n("L1") + 1)
  if (len((*$1)) < n("L2") + 1)
  if (len((*$1)) < n("L3") + 1)
  if not (len((*$2)) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$2)[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$2)[n("L4")].to) is Some)
  if (hget(lv("L4", "v0"), (*$2)[n("L4")].from) is Some)
  if not (%25 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  panics
pass L2
  if not (len((*$1)) < n("L2") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  do call "oak_visualize::geometry::Point::origin"()
  then v0 := hins(lv("L2", "v0"), (*$1)[n("L2")].id, call "oak_visualize::geometry::Point::origin"())
pass L3
  if not (len((*$1)) < n("L3") + 1)
  if (len((*$1)) < n("L3") + n("LayoutEngine>::layout#4") + 2)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("LayoutEngine>::layout#4", "forces")
pass L4
  if not (len((*$2)) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$2)[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$2)[n("L4")].to) is Some)
  if (hget(lv("L4", "v0"), (*$2)[n("L4")].from) is Some)
  if (%25 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  do %19
  do %20
  do %21
  do %23
  do %24
  do %26
  then v0 := hins(hins(lv("L4", "v0"), (*$2)[n("L4")].from, %24), (*$2)[n("L4")].to, %26)
pass L4
  if not (len((*$2)) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$2)[n("L4")].from) is Some)
  if not (hget(lv("L1", "v0"), (*$2)[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$2)) < n("L4") + 1)
  if not (hget(lv("L1", "v0"), (*$2)[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$2)[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$2)) < n("L4") + 1)
  if not (hget(lv("L1", "v0"), (*$2)[n("L4")].from) is Some)
  if not (hget(lv("L1", "v0"), (*$2)[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if not ((*$0).iterations < n("L1") + 1)
  if (len((*$1)) < n("L2") + 1)
  if (len((*$1)) < n("L3") + 1)
  if not (len((*$2)) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$2)[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$2)[n("L4")].to) is Some)
  if not (hget(lv("L4", "v0"), (*$2)[n("L4")].from) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  panics
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if not ((*$0).iterations < n("L1") + 1)
  if (len((*$1)) < n("L2") + 1)
  if not (len((*$1)) < n("L3") + 1)
  if not (len((*$1)) < n("L3") + n("L4") + 2)
  if (hget(lv("L1", "v0"), (*$1)[n("L3")].id) is Some)
  if %27
  if (hget(lv("L4", "v0"), (*$1)[n("L3")].id) is Some)
  if not (%35 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  panics
pass L4
  if not (len((*$1)) < n("L3") + n("L4") + 2)
  if (hget(lv("L1", "v0"), (*$1)[n("L3")].id) is Some)
  if %27
  if (hget(lv("L4", "v0"), (*$1)[n("L3")].id) is Some)
  if (%35 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  do %29
  do %30
  do call "f64::max"(%30, const('float', '3ff0000000000000'))
  do %31
  do %33
  do %34
  do %36
  then v0 := hins(hins(lv("L4", "v0"), (*$1)[n("L3")].id, %34), (*$1)[(n("L3") + n("L4") + 1)].id, %36)
pass L4
  if not (len((*$1)) < n("L3") + n("L4") + 2)
  if (hget(lv("L1", "v0"), (*$1)[n("L3")].id) is Some)
  if not %27
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1)) < n("L3") + n("L4") + 2)
  if not (hget(lv("L1", "v0"), (*$1)[n("L3")].id) is Some)
  if %27
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1)) < n("L3") + n("L4") + 2)
  if not (hget(lv("L1", "v0"), (*$1)[n("L3")].id) is Some)
  if not %27
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  if not ((*$0).iterations < n("L1") + 1)
  if (len((*$1)) < n("L2") + 1)
  if not (len((*$1)) < n("L3") + 1)
  if not (len((*$1)) < n("L3") + n("L4") + 2)
  if (hget(lv("L1", "v0"), (*$1)[n("L3")].id) is Some)
  if %27
  if not (hget(lv("L4", "v0"), (*$1)[n("L3")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  panics

fn <oak_visualize::layout::HierarchicalLayout as oak_visualize::layout::LayoutEngine>::layout
  given oak_visualize::layout::Layout::add_node
  given oak_visualize::layout::build_hierarchy_node
  given oak_visualize::layout::layout_node_left_right
  given oak_visualize::layout::layout_node_top_down
  let %1 = new "oak_visualize::layout::Layout"{bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: hnew(), edges: vnew()}
  let %2 = call "oak_visualize::layout::build_hierarchy_node"(rv((*$1)[n("L1")].id), $1, rv(lv("L0", "v0")))
  let %3 = call "oak_visualize::layout::layout_node_top_down"(rv(lv("L1", "v0")[n("L2")]), (*$3).margin, rv(lv("L2", "v1")), $3, rv(lv("L2", "v0")))
  let %4 = call "oak_visualize::layout::Layout::add_node"(rv(lv("L3", "v0")), call "HashMap::into_iter"(lv("L2", "v0"))[n("L3")].0, call "HashMap::into_iter"(lv("L2", "v0"))[n("L3")].1)
  let %5 = hget(lv("L3", "v0").nodes, (*$2)[n("L4")].from)@Some.0.rect.origin
  let %6 = hget(lv("L3", "v0").nodes, (*$2)[n("L4")].from)@Some.0.rect.size
  let %7 = hget(lv("L3", "v0").nodes, (*$2)[n("L4")].to)@Some.0.rect.origin
  let %8 = hget(lv("L3", "v0").nodes, (*$2)[n("L4")].to)@Some.0.rect.size
  let %9 = call "oak_visualize::layout::layout_node_left_right"(rv(lv("L1", "v0")[n("L2")]), rv(lv("L2", "v1")), (*$3).margin, $3, rv(lv("L2", "v0")))
case
  if (len((*$1)) == 0)
  ret new "core::result::Result" Ok{0: %1}
case
  if not (len((*$1)) == 0)
  if (len((*$2)) < n("L0") + 1)
  if (len((*$1)) < n("L1") + 1)
  if ((*$0).direction is TopDown)
  if not (n("L2") < len(lv("L1", "v0")))
  if not (n("L3") < len(call "HashMap::into_iter"(lv("L2", "v0"))))
  if (len((*$2)) < n("L4") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 @0 | v0 from hnew() | v1 from (*$3).margin
  loop L3 @1 | v0 from %1
  loop L4 @2 | v0 from lv("L3", "v0").edges
  ret new "core::result::Result" Ok{0: (lv("L3", "v0") with {edges: lv("L4", "v0")})}
pass L0
  if not (len((*$2)) < n("L0") + 1)
  if (hget(lv("L0", "v0"), (*$2)[n("L0")].from) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  then v0 := hins(lv("L0", "v0"), (*$2)[n("L0")].from, vpush(hget(lv("L0", "v0"), (*$2)[n("L0")].from)@Some.0, (*$2)[n("L0")].to))
  then v1 := hins(lv("L0", "v1"), (*$2)[n("L0")].to, tup{})
pass L0
  if not (len((*$2)) < n("L0") + 1)
  if not (hget(lv("L0", "v0"), (*$2)[n("L0")].from) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  then v0 := hins(lv("L0", "v0"), (*$2)[n("L0")].from, vpush(vnew(), (*$2)[n("L0")].to))
  then v1 := hins(lv("L0", "v1"), (*$2)[n("L0")].to, tup{})
pass L1
  if not (len((*$1)) < n("L1") + 1)
  if (hget(lv("L0", "v1"), (*$1)[n("L1")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  then v0 := lv("L1", "v0")
pass L1
  if not (len((*$1)) < n("L1") + 1)
  if not (hget(lv("L0", "v1"), (*$1)[n("L1")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  do %2
  then v0 := vpush(lv("L1", "v0"), %2)
pass L2
  if (n("L2") < len(lv("L1", "v0")))
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 @0,3 | v0 from hnew() | v1 from (*$3).margin
  do %3
  then v0 := post(4, %3)
  then v1 := op('fAdd', (*$3).vertical_spacing, post(2, %3))
pass L3
  if (n("L3") < len(call "HashMap::into_iter"(lv("L2", "v0"))))
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from hnew() | v1 from (*$3).margin
  loop L3 | v0 from %1
  do %4
  then v0 := post(0, %4)
pass L4
  if not (len((*$2)) < n("L4") + 1)
  if (hget(lv("L3", "v0").nodes, (*$2)[n("L4")].from) is Some)
  if (hget(lv("L3", "v0").nodes, (*$2)[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from hnew() | v1 from (*$3).margin
  loop L3 | v0 from %1
  loop L4 | v0 from lv("L3", "v0").edges
  then v0 := vpush(lv("L4", "v0"), new "oak_visualize::layout::Edge"{from: (*$2)[n("L4")].from, to: (*$2)[n("L4")].to, points: vpush(vpush(vnew(), new "oak_visualize::geometry::Point"{x: op('fAdd', %5.x, op('fDiv', %6.width, const('float', '4000000000000000'))), y: op('fAdd', %5.y, op('fDiv', %6.height, const('float', '4000000000000000')))}), new "oak_visualize::geometry::Point"{x: op('fAdd', %7.x, op('fDiv', %8.width, const('float', '4000000000000000'))), y: op('fAdd', %7.y, op('fDiv', %8.height, const('float', '4000000000000000')))}), label: (*$2)[n("L4")].label})
pass L4
  if not (len((*$2)) < n("L4") + 1)
  if (hget(lv("L3", "v0").nodes, (*$2)[n("L4")].from) is Some)
  if not (hget(lv("L3", "v0").nodes, (*$2)[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from hnew() | v1 from (*$3).margin
  loop L3 | v0 from %1
  loop L4 | v0 from lv("L3", "v0").edges
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$2)) < n("L4") + 1)
  if not (hget(lv("L3", "v0").nodes, (*$2)[n("L4")].from) is Some)
  if (hget(lv("L3", "v0").nodes, (*$2)[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from hnew() | v1 from (*$3).margin
  loop L3 | v0 from %1
  loop L4 | v0 from lv("L3", "v0").edges
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$2)) < n("L4") + 1)
  if not (hget(lv("L3", "v0").nodes, (*$2)[n("L4")].from) is Some)
  if not (hget(lv("L3", "v0").nodes, (*$2)[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from hnew() | v1 from (*$3).margin
  loop L3 | v0 from %1
  loop L4 | v0 from lv("L3", "v0").edges
  then v0 := lv("L4", "v0")
case
  if not (len((*$1)) == 0)
  if (len((*$2)) < n("L0") + 1)
  if (len((*$1)) < n("L1") + 1)
  if ((*$0).direction is RightLeft)
  if not (n("L2") < len(lv("L1", "v0")))
  if not (n("L3") < len(call "HashMap::into_iter"(lv("L2", "v0"))))
  if (len((*$2)) < n("L4") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 @4 | v0 from hnew() | v1 from (*$3).margin
  loop L3 @5 | v0 from %1
  loop L4 @6 | v0 from lv("L3", "v0").edges
  ret new "core::result::Result" Ok{0: (lv("L3", "v0") with {edges: lv("L4", "v0")})}
pass L2
  if (n("L2") < len(lv("L1", "v0")))
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 @4,7 | v0 from hnew() | v1 from (*$3).margin
  do %9
  then v0 := post(4, %9)
  then v1 := op('fAdd', (*$3).horizontal_spacing, post(1, %9))
case
  if not (len((*$1)) == 0)
  if (len((*$2)) < n("L0") + 1)
  if (len((*$1)) < n("L1") + 1)
  if ((*$0).direction is LeftRight)
  if not (n("L2") < len(lv("L1", "v0")))
  if not (n("L3") < len(call "HashMap::into_iter"(lv("L2", "v0"))))
  if (len((*$2)) < n("L4") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 @7 | v0 from hnew() | v1 from (*$3).margin
  loop L3 @8 | v0 from %1
  loop L4 @9 | v0 from lv("L3", "v0").edges
  ret new "core::result::Result" Ok{0: (lv("L3", "v0") with {edges: lv("L4", "v0")})}
case
  if not (len((*$1)) == 0)
  if (len((*$2)) < n("L0") + 1)
  if (len((*$1)) < n("L1") + 1)
  if ((*$0).direction is BottomUp)
  if not (n("L2") < len(lv("L1", "v0")))
  if not (n("L3") < len(call "HashMap::into_iter"(lv("L2", "v0"))))
  if (len((*$2)) < n("L4") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  loop L2 @3 | v0 from hnew() | v1 from (*$3).margin
  loop L3 @10 | v0 from %1
  loop L4 @11 | v0 from lv("L3", "v0").edges
  ret new "core::result::Result" Ok{0: (lv("L3", "v0") with {edges: lv("L4", "v0")})}

fn <oak_visualize::layout::Layout as core::default::Default>::default
case
  ret new "oak_visualize::layout::Layout"{bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: hnew(), edges: vnew()}

fn <oak_visualize::layout::LayoutConfig as core::default::Default>::default
case
  ret new "oak_visualize::layout::LayoutConfig"{node_width: const('float', '405e000000000000'), node_height: const('float', '404e000000000000'), horizontal_spacing: const('float', '4044000000000000'), vertical_spacing: const('float', '403e000000000000'), margin: const('float', '4034000000000000'), padding: const('float', '4024000000000000')}

fn <oak_visualize::tree::TreeLayout as core::default::Default>::default
case
  ret new "oak_visualize::tree::TreeLayout"{algorithm: new "oak_visualize::tree::TreeLayoutAlgorithm" Layered{}, config: new "oak_visualize::tree::TreeLayoutConfig"{node_width: const('float', '4059000000000000'), node_height: const('float', '4044000000000000'), level_distance: const('float', '4054000000000000'), sibling_distance: const('float', '4034000000000000'), subtree_distance: const('float', '4044000000000000')}}

fn <oak_visualize::tree::TreeLayoutConfig as core::default::Default>::default
case
  ret new "oak_visualize::tree::TreeLayoutConfig"{node_width: const('float', '4059000000000000'), node_height: const('float', '4044000000000000'), level_distance: const('float', '4054000000000000'), sibling_distance: const('float', '4034000000000000'), subtree_distance: const('float', '4044000000000000')}

fn <oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from
  let %1 = cat(<"node_", display('d', call "core::sync::atomic::Atomic::fetch_add"(const('static', 'oak_visualize::tree::NODE_ID_COUNTER'), 1, new "core::sync::atomic::Ordering"{}))>)
  let %2 = call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from"(rv((*(*(*$0)@Node.0).children)[n("L0")]))
case
  if ((*$0) is Leaf)
  do call "core::sync::atomic::Atomic::fetch_add"(const('static', 'oak_visualize::tree::NODE_ID_COUNTER'), 1, new "core::sync::atomic::Ordering"{})
  ret new "oak_visualize::tree::TreeNode"{id: %1, label: display('?', (*$0)@Leaf.0.kind), node_type: "leaf", children: vnew(), attributes: hnew(), size: new "core::option::Option" None{}}
case
  if not ((*$0) is Leaf)
  if (len((*(*(*$0)@Node.0).children)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  do call "core::sync::atomic::Atomic::fetch_add"(const('static', 'oak_visualize::tree::NODE_ID_COUNTER'), 1, new "core::sync::atomic::Ordering"{})
  ret new "oak_visualize::tree::TreeNode"{id: %1, label: display('?', (*(*$0)@Node.0).kind), node_type: "node", children: lv("L0", "v0"), attributes: hnew(), size: new "core::option::Option" None{}}
pass L0
  if not (len((*(*(*$0)@Node.0).children)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  do %2
  then v0 := vpush(lv("L0", "v0"), %2)

fn <oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::red_tree::RedTree>>::from
  given <oak_visualize::tree::TreeNode as core::convert::From<oak_core::tree::red_tree::RedTree>>::from
  given <oak_visualize::tree::TreeNode as core::convert::From<oak_core::tree::red_tree::RedTree>>::from
  let %1 = cat(<"node_", display('d', call "core::sync::atomic::Atomic::fetch_add"(const('static', 'oak_visualize::tree::NODE_ID_COUNTER'), 1, new "core::sync::atomic::Ordering"{}))>)
  let %2 = sum(j0, 0, n("L0"), case{!((*(*(*$0)@Node.0.green).children)[?j0] is Leaf) => (*(*(*(*$0)@Node.0.green).children)[?j0]@Node.0).text_len; ((*(*(*$0)@Node.0.green).children)[?j0] is Leaf) => (*(*(*$0)@Node.0.green).children)[?j0]@Leaf.0.length})
  let %3 = call "<oak_visualize::tree::TreeNode as core::convert::From<oak_core::tree::red_tree::RedTree>>::from"(new "oak_core::tree::red_tree::RedTree" Node{0: new "oak_core::tree::red_tree::RedNode"{green: (*(*(*$0)@Node.0.green).children)[n("L0")]@Node.0, offset: (%2 + (*$0)@Node.0.offset)}})
  let %4 = call "<oak_visualize::tree::TreeNode as core::convert::From<oak_core::tree::red_tree::RedTree>>::from"(new "oak_core::tree::red_tree::RedTree" Leaf{0: new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*(*$0)@Node.0.green).children)[n("L0")]@Leaf.0.kind, span: new "range"{start: (%2 + (*$0)@Node.0.offset), end: (%2 + (*$0)@Node.0.offset + (*(*(*$0)@Node.0.green).children)[n("L0")]@Leaf.0.length)}}})
case
  if ((*$0) is Leaf)
  do call "core::sync::atomic::Atomic::fetch_add"(const('static', 'oak_visualize::tree::NODE_ID_COUNTER'), 1, new "core::sync::atomic::Ordering"{})
  ret new "oak_visualize::tree::TreeNode"{id: %1, label: display('?', (*$0)@Leaf.0.kind), node_type: "leaf", children: vnew(), attributes: hnew(), size: new "core::option::Option" None{}}
case
  if not ((*$0) is Leaf)
  if (len((*(*(*$0)@Node.0.green).children)) < n("L0") + 1)
  loop L0 | v0 from vnew()
  do call "core::sync::atomic::Atomic::fetch_add"(const('static', 'oak_visualize::tree::NODE_ID_COUNTER'), 1, new "core::sync::atomic::Ordering"{})
  ret new "oak_visualize::tree::TreeNode"{id: %1, label: display('?', (*(*$0)@Node.0.green).kind), node_type: "node", children: lv("L0", "v0"), attributes: hnew(), size: new "core::option::Option" None{}}
pass L0
  if not (len((*(*(*$0)@Node.0.green).children)) < n("L0") + 1)
  if not ((*(*(*$0)@Node.0.green).children)[n("L0")] is Leaf)
  loop L0 | v0 from vnew()
  do %3
  then v0 := vpush(lv("L0", "v0"), %3)
pass L0
  if not (len((*(*(*$0)@Node.0.green).children)) < n("L0") + 1)
  if ((*(*(*$0)@Node.0.green).children)[n("L0")] is Leaf)
  loop L0 | v0 from vnew()
  do %4
  then v0 := vpush(lv("L0", "v0"), %4)

fn <oak_visualize::tree::TreeNode as core::convert::From<oak_core::tree::green_tree::GreenTree>>::from
  given <oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from
case
  do call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from"(rv($0))
  ret call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::green_tree::GreenTree>>::from"(rv($0))

fn <oak_visualize::tree::TreeNode as core::convert::From<oak_core::tree::red_tree::RedTree>>::from
  given <oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::red_tree::RedTree>>::from
case
  do call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::red_tree::RedTree>>::from"(rv($0))
  ret call "<oak_visualize::tree::TreeNode as core::convert::From<&oak_core::tree::red_tree::RedTree>>::from"(rv($0))

fn <oak_visualize::tree::TreeNode as oak_visualize::Visualize>::visualize
  given oak_visualize::tree::TreeLayout::add_tree_edges
  given oak_visualize::tree::TreeLayout::calculate_level_widths
  given oak_visualize::tree::TreeLayout::position_layered_node
  given oak_visualize::tree::TreeLayout::visualize
  let %1 = call "oak_visualize::tree::TreeLayout::visualize"(rv(new "oak_visualize::tree::TreeLayout"{algorithm: new "oak_visualize::tree::TreeLayoutAlgorithm" Layered{}, config: new "oak_visualize::tree::TreeLayoutConfig"{node_width: const('float', '4059000000000000'), node_height: const('float', '4044000000000000'), level_distance: const('float', '4054000000000000'), sibling_distance: const('float', '4034000000000000'), subtree_distance: const('float', '4044000000000000')}}), $0)
case
  do %1
  ret %1

fn <oak_visualize::tree::TreeRenderConfig as core::default::Default>::default
case
  ret new "oak_visualize::tree::TreeRenderConfig"{node_fill_color: "#ffffff", node_stroke_color: "#000000", node_stroke_width: const('float', '3ff0000000000000'), edge_color: "#666666", edge_width: const('float', '3ff0000000000000'), text_color: "#000000", font_family: "Arial, sans-serif", font_size: const('float', '4028000000000000')}

fn <oak_visualize::tree::TreeRenderer as core::default::Default>::default
case
  ret new "oak_visualize::tree::TreeRenderer"{config: new "oak_visualize::tree::TreeRenderConfig"{node_fill_color: "#ffffff", node_stroke_color: "#000000", node_stroke_width: const('float', '3ff0000000000000'), edge_color: "#666666", edge_width: const('float', '3ff0000000000000'), text_color: "#000000", font_family: "Arial, sans-serif", font_size: const('float', '4028000000000000')}}

fn oak_visualize::layout::Edge::new
case
  ret new "oak_visualize::layout::Edge"{from: $0, to: $1, points: vnew(), label: new "core::option::Option" None{}}

fn oak_visualize::layout::Edge::with_label
case
  ret ($0 with {label: new "core::option::Option" Some{0: $1}})

fn oak_visualize::layout::Edge::with_points
case
  ret ($0 with {points: $1})

fn oak_visualize::layout::ForceDirectedLayout::new
case
  ret new "oak_visualize::layout::ForceDirectedLayout"{iterations: 100, spring_strength: const('float', '3fb999999999999a'), repulsion_strength: const('float', '408f400000000000'), damping: const('float', '3feccccccccccccd')}

fn oak_visualize::layout::ForceDirectedLayout::with_iterations
case
  ret ($0 with {iterations: $1})

fn oak_visualize::layout::ForceDirectedLayout::with_repulsion_strength
case
  ret ($0 with {repulsion_strength: $1})

fn oak_visualize::layout::ForceDirectedLayout::with_spring_strength
case
  ret ($0 with {spring_strength: $1})

fn oak_visualize::layout::HierarchicalLayout::new
case
  ret new "oak_visualize::layout::HierarchicalLayout"{direction: $0}

fn oak_visualize::layout::Layout::add_edge
case
  set $0 := ((*$0) with {edges: vpush((*$0).edges, $1)})
  ret tup{}

fn oak_visualize::layout::Layout::add_node
  let %1 = hins((*$0).nodes, $1, new "oak_visualize::layout::PositionedNode"{id: $1, label: $1, rect: $2, node_type: new "oak_visualize::layout::NodeType" Default{}})
  let %2 = call "f64::min"(lv("L0", "v2"), (*call "HashMap::values"(%1)[n("L0")]).rect.origin.x)
  let %3 = call "f64::min"(lv("L0", "v3"), (*call "HashMap::values"(%1)[n("L0")]).rect.origin.y)
  let %4 = call "f64::max"(lv("L0", "v0"), op('fAdd', (*call "HashMap::values"(%1)[n("L0")]).rect.origin.x, (*call "HashMap::values"(%1)[n("L0")]).rect.size.width))
  let %5 = call "f64::max"(lv("L0", "v1"), op('fAdd', (*call "HashMap::values"(%1)[n("L0")]).rect.origin.y, (*call "HashMap::values"(%1)[n("L0")]).rect.size.height))
case
  if (len(%1) == 0)
  set $0 := ((*$0) with {bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: %1})
  ret tup{}
case
  if not (len(%1) == 0)
  if not (n("L0") < len(call "HashMap::values"(%1)))
  loop L0 | v0 from const('float', 'fff0000000000000') | v1 from const('float', 'fff0000000000000') | v2 from const('float', '7ff0000000000000') | v3 from const('float', '7ff0000000000000')
  set $0 := ((*$0) with {bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: lv("L0", "v2"), y: lv("L0", "v3")}, size: new "oak_visualize::geometry::Size"{width: op('fSub', lv("L0", "v0"), lv("L0", "v2")), height: op('fSub', lv("L0", "v1"), lv("L0", "v3"))}}, nodes: %1})
  ret tup{}
pass L0
  if (n("L0") < len(call "HashMap::values"(%1)))
  loop L0 | v0 from const('float', 'fff0000000000000') | v1 from const('float', 'fff0000000000000') | v2 from const('float', '7ff0000000000000') | v3 from const('float', '7ff0000000000000')
  do %2
  do %3
  do %4
  do %5
  then v0 := %4
  then v1 := %5
  then v2 := %2
  then v3 := %3

fn oak_visualize::layout::Layout::add_node_with_metadata
  let %1 = hins((*$0).nodes, $1, new "oak_visualize::layout::PositionedNode"{id: $1, label: $2, rect: $3, node_type: $4})
  let %2 = call "f64::min"(lv("L0", "v2"), (*call "HashMap::values"(%1)[n("L0")]).rect.origin.x)
  let %3 = call "f64::min"(lv("L0", "v3"), (*call "HashMap::values"(%1)[n("L0")]).rect.origin.y)
  let %4 = call "f64::max"(lv("L0", "v0"), op('fAdd', (*call "HashMap::values"(%1)[n("L0")]).rect.origin.x, (*call "HashMap::values"(%1)[n("L0")]).rect.size.width))
  let %5 = call "f64::max"(lv("L0", "v1"), op('fAdd', (*call "HashMap::values"(%1)[n("L0")]).rect.origin.y, (*call "HashMap::values"(%1)[n("L0")]).rect.size.height))
case
  if (len(%1) == 0)
  set $0 := ((*$0) with {bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: %1})
  ret tup{}
case
  if not (len(%1) == 0)
  if not (n("L0") < len(call "HashMap::values"(%1)))
  loop L0 | v0 from const('float', 'fff0000000000000') | v1 from const('float', 'fff0000000000000') | v2 from const('float', '7ff0000000000000') | v3 from const('float', '7ff0000000000000')
  set $0 := ((*$0) with {bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: lv("L0", "v2"), y: lv("L0", "v3")}, size: new "oak_visualize::geometry::Size"{width: op('fSub', lv("L0", "v0"), lv("L0", "v2")), height: op('fSub', lv("L0", "v1"), lv("L0", "v3"))}}, nodes: %1})
  ret tup{}
pass L0
  if (n("L0") < len(call "HashMap::values"(%1)))
  loop L0 | v0 from const('float', 'fff0000000000000') | v1 from const('float', 'fff0000000000000') | v2 from const('float', '7ff0000000000000') | v3 from const('float', '7ff0000000000000')
  do %2
  do %3
  do %4
  do %5
  then v0 := %4
  then v1 := %5
  then v2 := %2
  then v3 := %3

fn oak_visualize::layout::Layout::new
case
  ret new "oak_visualize::layout::Layout"{bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: hnew(), edges: vnew()}

fn oak_visualize::layout::Layout::update_bounds  [private]
  takes &mut oak_visualize::layout::Layout
  let %1 = (*call "HashMap::values"((*$0).nodes)[n("L0")]).rect.origin.x
  let %2 = (*call "HashMap::values"((*$0).nodes)[n("L0")]).rect.origin.y
  let %3 = call "f64::max"(lv("L0", "v0"), op('fAdd', %1, (*call "HashMap::values"((*$0).nodes)[n("L0")]).rect.size.width))
  let %4 = call "f64::max"(lv("L0", "v1"), op('fAdd', %2, (*call "HashMap::values"((*$0).nodes)[n("L0")]).rect.size.height))
case
  if (len((*$0).nodes) == 0)
  set $0 := ((*$0) with {bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}})
  ret tup{}
case
  if not (len((*$0).nodes) == 0)
  if not (n("L0") < len(call "HashMap::values"((*$0).nodes)))
  loop L0 | v0 from const('float', 'fff0000000000000') | v1 from const('float', 'fff0000000000000') | v2 from const('float', '7ff0000000000000') | v3 from const('float', '7ff0000000000000')
  set $0 := ((*$0) with {bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: lv("L0", "v2"), y: lv("L0", "v3")}, size: new "oak_visualize::geometry::Size"{width: op('fSub', lv("L0", "v0"), lv("L0", "v2")), height: op('fSub', lv("L0", "v1"), lv("L0", "v3"))}}})
  ret tup{}
pass L0
  if (n("L0") < len(call "HashMap::values"((*$0).nodes)))
  loop L0 | v0 from const('float', 'fff0000000000000') | v1 from const('float', 'fff0000000000000') | v2 from const('float', '7ff0000000000000') | v3 from const('float', '7ff0000000000000')
  do call "f64::min"(lv("L0", "v2"), %1)
  do call "f64::min"(lv("L0", "v3"), %2)
  do %3
  do %4
  then v0 := %3
  then v1 := %4
  then v2 := call "f64::min"(lv("L0", "v2"), %1)
  then v3 := call "f64::min"(lv("L0", "v3"), %2)

fn oak_visualize::layout::LayoutEdge::new
case
  ret new "oak_visualize::layout::LayoutEdge"{from: $0, to: $1, label: new "core::option::Option" None{}, edge_type: new "oak_visualize::layout::EdgeType" Default{}}

fn oak_visualize::layout::LayoutEdge::with_label
case
  ret ($0 with {label: new "core::option::Option" Some{0: $1}})

fn oak_visualize::layout::LayoutEdge::with_type
case
  ret ($0 with {edge_type: $1})

fn oak_visualize::layout::LayoutNode::new
case
  ret new "oak_visualize::layout::LayoutNode"{id: $0, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}, label: $1, node_type: new "oak_visualize::layout::NodeType" Default{}}

fn oak_visualize::layout::LayoutNode::with_size
case
  ret ($0 with {size: $1})

fn oak_visualize::layout::LayoutNode::with_type
case
  ret ($0 with {node_type: $1})

fn oak_visualize::layout::build_hierarchy  [private]
  takes &[oak_visualize::layout::LayoutNode]; &[oak_visualize::layout::LayoutEdge]
  given oak_visualize::layout::build_hierarchy_node
  let %1 = call "oak_visualize::layout::build_hierarchy_node"(rv((*$0)[n("L1")].id), $0, rv(lv("L0", "v0")))
case
  if (len((*$1)) < n("L0") + 1)
  if not (n("L1") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  ret new "core::result::Result" Ok{0: lv("L1", "v0")}
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if (hget(lv("L0", "v0"), (*$1)[n("L0")].from) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  then v0 := hins(lv("L0", "v0"), (*$1)[n("L0")].from, vpush(hget(lv("L0", "v0"), (*$1)[n("L0")].from)@Some.0, (*$1)[n("L0")].to))
  then v1 := hins(lv("L0", "v1"), (*$1)[n("L0")].to, tup{})
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if not (hget(lv("L0", "v0"), (*$1)[n("L0")].from) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  then v0 := hins(lv("L0", "v0"), (*$1)[n("L0")].from, vpush(vnew(), (*$1)[n("L0")].to))
  then v1 := hins(lv("L0", "v1"), (*$1)[n("L0")].to, tup{})
pass L1
  if (n("L1") < len((*$0)))
  if (hget(lv("L0", "v1"), (*$0)[n("L1")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  then v0 := lv("L1", "v0")
pass L1
  if (n("L1") < len((*$0)))
  if not (hget(lv("L0", "v1"), (*$0)[n("L1")].id) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from vnew()
  do %1
  then v0 := vpush(lv("L1", "v0"), %1)

fn oak_visualize::layout::build_hierarchy_node  [private]
  takes &str; &[oak_visualize::layout::LayoutNode]; &std::collections::hash::map::HashMap<alloc::string::String, alloc::vec::Vec<alloc::string::String>>
  let %1 = call "oak_visualize::layout::build_hierarchy_node"(rv(hget((*$2), $0)@Some.0[n("L0")]), $1, $2)
case
  if (len((*$1)) < n("C0") + 1)
  loop C0
  panics
case
  if not (len((*$1)) < n("C0") + 1)
  if ($0 === (*$1)[n("C0")].id)
  if (hget((*$2), $0) is Some)
  if not (n("L0") < len(hget((*$2), $0)@Some.0))
  loop C0
  loop L0 | v0 from vnew()
  ret new "oak_visualize::layout::HierarchyNode"{id: (*$0), children: lv("L0", "v0"), size: (*$1)[n("C0")].size}
pass L0
  if (n("L0") < len(hget((*$2), $0)@Some.0))
  loop C0
  loop L0 | v0 from vnew()
  do %1
  then v0 := vpush(lv("L0", "v0"), %1)
case
  if not (len((*$1)) < n("C0") + 1)
  if ($0 === (*$1)[n("C0")].id)
  if not (hget((*$2), $0) is Some)
  loop C0
  ret new "oak_visualize::layout::HierarchyNode"{id: (*$0), children: vnew(), size: (*$1)[n("C0")].size}

fn oak_visualize::layout::layout_bottom_up  [private]
  takes &[oak_visualize::layout::HierarchyNode]; &oak_visualize::layout::LayoutConfig
  given oak_visualize::layout::layout_node_top_down
  let %1 = call "oak_visualize::layout::layout_node_top_down"(rv((*$0)[n("L0")]), (*$1).margin, rv(lv("L0", "v1")), $1, rv(lv("L0", "v0")))
case
  if not (n("L0") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from (*$1).margin
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from (*$1).margin
  do %1
  then v0 := post(4, %1)
  then v1 := op('fAdd', (*$1).vertical_spacing, post(2, %1))

fn oak_visualize::layout::layout_left_right  [private]
  takes &[oak_visualize::layout::HierarchyNode]; &oak_visualize::layout::LayoutConfig
  given oak_visualize::layout::layout_node_left_right
  let %1 = call "oak_visualize::layout::layout_node_left_right"(rv((*$0)[n("L0")]), rv(lv("L0", "v1")), (*$1).margin, $1, rv(lv("L0", "v0")))
case
  if not (n("L0") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from (*$1).margin
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from (*$1).margin
  do %1
  then v0 := post(4, %1)
  then v1 := op('fAdd', (*$1).horizontal_spacing, post(1, %1))

fn oak_visualize::layout::layout_node_left_right  [private]
  takes &oak_visualize::layout::HierarchyNode; &mut f64; f64; &oak_visualize::layout::LayoutConfig; &mut std::collections::hash::map::HashMap<alloc::string::String, oak_visualize::geometry::Rect>
  let %1 = op('fAdd', (*$1), op('fAdd', (*$3).horizontal_spacing, (*$0).size.width))
  let %2 = hins((*$4), (*$0).id, new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: (*$1), y: $2}, size: (*$0).size})
  let %3 = call "oak_visualize::layout::layout_node_left_right"(rv((*$0).children[n("L0")]), rv(lv("L0", "v1")), lv("L0", "v0"), $3, rv(lv("L0", "v2")))
case
  if not (n("L0") < len((*$0).children))
  loop L0 | v0 from op('fAdd', (*$3).vertical_spacing, $2) | v1 from %1 | v2 from %2
  set $1 := lv("L0", "v1")
  set $4 := lv("L0", "v2")
  ret tup{}
pass L0
  if (n("L0") < len((*$0).children))
  loop L0 | v0 from op('fAdd', (*$3).vertical_spacing, $2) | v1 from %1 | v2 from %2
  do %3
  then v0 := op('fAdd', lv("L0", "v0"), op('fAdd', (*$3).vertical_spacing, (*$0).children[n("L0")].size.height))
  then v1 := post(1, %3)
  then v2 := post(4, %3)

fn oak_visualize::layout::layout_node_top_down  [private]
  takes &oak_visualize::layout::HierarchyNode; f64; &mut f64; &oak_visualize::layout::LayoutConfig; &mut std::collections::hash::map::HashMap<alloc::string::String, oak_visualize::geometry::Rect>
  let %1 = op('fAdd', (*$2), op('fAdd', (*$3).vertical_spacing, (*$0).size.height))
  let %2 = hins((*$4), (*$0).id, new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: $1, y: (*$2)}, size: (*$0).size})
  let %3 = call "oak_visualize::layout::layout_node_top_down"(rv((*$0).children[n("L0")]), lv("L0", "v0"), rv(lv("L0", "v1")), $3, rv(lv("L0", "v2")))
case
  if not (n("L0") < len((*$0).children))
  loop L0 | v0 from op('fAdd', (*$3).horizontal_spacing, $1) | v1 from %1 | v2 from %2
  set $2 := lv("L0", "v1")
  set $4 := lv("L0", "v2")
  ret tup{}
pass L0
  if (n("L0") < len((*$0).children))
  loop L0 | v0 from op('fAdd', (*$3).horizontal_spacing, $1) | v1 from %1 | v2 from %2
  do %3
  then v0 := op('fAdd', lv("L0", "v0"), op('fAdd', (*$3).horizontal_spacing, (*$0).children[n("L0")].size.width))
  then v1 := post(2, %3)
  then v2 := post(4, %3)

fn oak_visualize::layout::layout_right_left  [private]
  takes &[oak_visualize::layout::HierarchyNode]; &oak_visualize::layout::LayoutConfig
  given oak_visualize::layout::layout_node_left_right
  let %1 = call "oak_visualize::layout::layout_node_left_right"(rv((*$0)[n("L0")]), rv(lv("L0", "v1")), (*$1).margin, $1, rv(lv("L0", "v0")))
case
  if not (n("L0") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from (*$1).margin
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from (*$1).margin
  do %1
  then v0 := post(4, %1)
  then v1 := op('fAdd', (*$1).horizontal_spacing, post(1, %1))

fn oak_visualize::layout::layout_top_down  [private]
  takes &[oak_visualize::layout::HierarchyNode]; &oak_visualize::layout::LayoutConfig
  given oak_visualize::layout::layout_node_top_down
  let %1 = call "oak_visualize::layout::layout_node_top_down"(rv((*$0)[n("L0")]), (*$1).margin, rv(lv("L0", "v1")), $1, rv(lv("L0", "v0")))
case
  if not (n("L0") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from (*$1).margin
  ret lv("L0", "v0")
pass L0
  if (n("L0") < len((*$0)))
  loop L0 | v0 from hnew() | v1 from (*$1).margin
  do %1
  then v0 := post(4, %1)
  then v1 := op('fAdd', (*$1).vertical_spacing, post(2, %1))

fn oak_visualize::layout::route_edge  [private]
  takes &oak_visualize::geometry::Rect; &oak_visualize::geometry::Rect; &str; &str; core::option::Option<alloc::string::String>
case
  ret new "oak_visualize::layout::Edge"{from: (*$2), to: (*$3), points: vpush(vpush(vnew(), new "oak_visualize::geometry::Point"{x: op('fAdd', (*$0).origin.x, op('fDiv', (*$0).size.width, const('float', '4000000000000000'))), y: op('fAdd', (*$0).origin.y, op('fDiv', (*$0).size.height, const('float', '4000000000000000')))}), new "oak_visualize::geometry::Point"{x: op('fAdd', (*$1).origin.x, op('fDiv', (*$1).size.width, const('float', '4000000000000000'))), y: op('fAdd', (*$1).origin.y, op('fDiv', (*$1).size.height, const('float', '4000000000000000')))}), label: $4}

fn oak_visualize::tree::TreeLayout::add_tree_edges  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode; &mut oak_visualize::layout::Layout
  let %1 = call "oak_visualize::tree::TreeLayout::add_tree_edges"($0, rv((*$1).children[n("L0")]), rv((lv("L0", "v0") with {edges: vpush(lv("L0", "v0").edges, new "oak_visualize::layout::Edge"{from: (*$1).id, to: (*$1).children[n("L0")].id, points: vnew(), label: new "core::option::Option" None{}})})))
case
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from (*$2)
  set $2 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from (*$2)
  do %1
  then v0 := post(2, %1)

fn oak_visualize::tree::TreeLayout::balloon_layout  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode
  given oak_visualize::geometry::Point::new
  given oak_visualize::geometry::Rect::new
  given oak_visualize::geometry::Size::new
  given oak_visualize::layout::Layout::add_node_with_metadata
  given oak_visualize::layout::Layout::new
  given oak_visualize::tree::TreeLayout::add_tree_edges
  given oak_visualize::tree::TreeLayout::position_balloon_children
  let %1 = call "oak_visualize::geometry::Size::new"((*$0).config.node_width, (*$0).config.node_height)
  let %2 = hins(hnew(), (*$1).id, tup{0: call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')), 1: case{((*$1).size is Some) => (*$1).size@Some.0; !((*$1).size is Some) => %1}, 2: (*$1).label, 3: (*$1).node_type})
  let %3 = call "oak_visualize::tree::TreeLayout::add_tree_edges"($0, $1, rv(lv("L0", "v0")))
  let %4 = call "oak_visualize::geometry::Point::new"(op('fSub', call "HashMap::into_iter"(%2)[n("L0")].1.0.x, op('fDiv', call "HashMap::into_iter"(%2)[n("L0")].1.1.width, const('float', '4000000000000000'))), op('fSub', call "HashMap::into_iter"(%2)[n("L0")].1.0.y, op('fDiv', call "HashMap::into_iter"(%2)[n("L0")].1.1.height, const('float', '4000000000000000'))))
  let %5 = call "oak_visualize::geometry::Rect::new"(%4, call "HashMap::into_iter"(%2)[n("L0")].1.1)
  let %6 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%2)[n("L0")].0, call "HashMap::into_iter"(%2)[n("L0")].1.2, %5, new "oak_visualize::layout::NodeType" Function{})
  let %7 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%2)[n("L0")].0, call "HashMap::into_iter"(%2)[n("L0")].1.2, %5, new "oak_visualize::layout::NodeType" Struct{})
  let %8 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%2)[n("L0")].0, call "HashMap::into_iter"(%2)[n("L0")].1.2, %5, new "oak_visualize::layout::NodeType" Module{})
  let %9 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%2)[n("L0")].0, call "HashMap::into_iter"(%2)[n("L0")].1.2, %5, new "oak_visualize::layout::NodeType" Default{})
  let %10 = call "oak_visualize::tree::TreeLayout::position_balloon_children"($0, rv((*$1).children), call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')), (*$0).config.level_distance, rv(%2))
  let %11 = ("function" === call "HashMap::into_iter"(post(4, %10))[n("L0")].1.3)
  let %12 = call "oak_visualize::geometry::Point::new"(op('fSub', call "HashMap::into_iter"(post(4, %10))[n("L0")].1.0.x, op('fDiv', call "HashMap::into_iter"(post(4, %10))[n("L0")].1.1.width, const('float', '4000000000000000'))), op('fSub', call "HashMap::into_iter"(post(4, %10))[n("L0")].1.0.y, op('fDiv', call "HashMap::into_iter"(post(4, %10))[n("L0")].1.1.height, const('float', '4000000000000000'))))
  let %13 = call "oak_visualize::geometry::Rect::new"(%12, call "HashMap::into_iter"(post(4, %10))[n("L0")].1.1)
  let %14 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(4, %10))[n("L0")].0, call "HashMap::into_iter"(post(4, %10))[n("L0")].1.2, %13, new "oak_visualize::layout::NodeType" Function{})
  let %15 = ("struct" === call "HashMap::into_iter"(post(4, %10))[n("L0")].1.3)
  let %16 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(4, %10))[n("L0")].0, call "HashMap::into_iter"(post(4, %10))[n("L0")].1.2, %13, new "oak_visualize::layout::NodeType" Struct{})
  let %17 = ("module" === call "HashMap::into_iter"(post(4, %10))[n("L0")].1.3)
  let %18 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(4, %10))[n("L0")].0, call "HashMap::into_iter"(post(4, %10))[n("L0")].1.2, %13, new "oak_visualize::layout::NodeType" Module{})
  let %19 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(4, %10))[n("L0")].0, call "HashMap::into_iter"(post(4, %10))[n("L0")].1.2, %13, new "oak_visualize::layout::NodeType" Default{})
case
  if (len((*$1).children) == 0)
  if not (n("L0") < len(call "HashMap::into_iter"(%2)))
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  do %3
  ret new "core::result::Result" Ok{0: post(2, %3)}
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%2)))
  if ("function" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %4
  do %5
  do %6
  then v0 := post(0, %6)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%2)))
  if not ("function" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if ("struct" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %4
  do %5
  do %7
  then v0 := post(0, %7)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%2)))
  if not ("function" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if not ("struct" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if ("module" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %4
  do %5
  do %8
  then v0 := post(0, %8)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%2)))
  if not ("function" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if not ("struct" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if not ("module" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %4
  do %5
  do %9
  then v0 := post(0, %9)
case
  if not (len((*$1).children) == 0)
  if not (n("L0") < len(call "HashMap::into_iter"(post(4, %10))))
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  do %10
  do %3
  ret new "core::result::Result" Ok{0: post(2, %3)}
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(4, %10))))
  if %11
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  do %14
  then v0 := post(0, %14)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(4, %10))))
  if not %11
  if %15
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  do %16
  then v0 := post(0, %16)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(4, %10))))
  if not %11
  if not %15
  if %17
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  do %18
  then v0 := post(0, %18)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(4, %10))))
  if not %11
  if not %15
  if not %17
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  do %19
  then v0 := post(0, %19)

fn oak_visualize::tree::TreeLayout::calculate_level_widths  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode; usize; &mut std::collections::hash::map::HashMap<usize, f64>
  let %1 = hins((*$3), $2, op('fAdd', (*$0).config.sibling_distance, ((*$1).size@Some.0.width + hget((*$3), $2)@Some.0)))
  let %2 = call "oak_visualize::tree::TreeLayout::calculate_level_widths"($0, rv((*$1).children[n("L0")]), ($2 + 1), rv(lv("L0", "v0")))
  let %3 = hins((*$3), $2, op('fAdd', ((*$1).size@Some.0.width + const('float', '0')), (*$0).config.sibling_distance))
  let %4 = hins((*$3), $2, op('fAdd', (*$0).config.sibling_distance, ((*$0).config.node_width + hget((*$3), $2)@Some.0)))
  let %5 = hins((*$3), $2, op('fAdd', (*$0).config.sibling_distance, ((*$0).config.node_width + const('float', '0'))))
case
  if ((*$1).size is Some)
  if (hget((*$3), $2) is Some)
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %1
  set $3 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %1
  do %2
  then v0 := post(3, %2)
case
  if ((*$1).size is Some)
  if not (hget((*$3), $2) is Some)
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %3
  set $3 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %3
  do %2
  then v0 := post(3, %2)
case
  if not ((*$1).size is Some)
  if (hget((*$3), $2) is Some)
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %4
  set $3 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %4
  do %2
  then v0 := post(3, %2)
case
  if not ((*$1).size is Some)
  if not (hget((*$3), $2) is Some)
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %5
  set $3 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %5
  do %2
  then v0 := post(3, %2)

fn oak_visualize::tree::TreeLayout::compact_layout  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode
  given oak_visualize::layout::Layout::add_node_with_metadata
  given oak_visualize::tree::TreeLayout::add_tree_edges
  given oak_visualize::tree::TreeLayout::extract_positions
  given oak_visualize::tree::TreeLayout::position_compact_node
  let %1 = call "oak_visualize::tree::TreeLayout::position_compact_node"($0, $1, const('float', '0'), const('float', '0'), 0)
  let %2 = call "oak_visualize::tree::TreeLayout::extract_positions"($0, rv(%1), rv(hnew()))
  let %3 = new "oak_visualize::layout::Layout"{bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: hnew(), edges: vnew()}
  let %4 = call "oak_visualize::tree::TreeLayout::add_tree_edges"($0, $1, rv(lv("L0", "v0")))
  let %5 = ("function" === call "HashMap::into_iter"(post(2, %2))[n("L0")].1.3)
  let %6 = new "oak_visualize::geometry::Rect"{origin: call "HashMap::into_iter"(post(2, %2))[n("L0")].1.0, size: call "HashMap::into_iter"(post(2, %2))[n("L0")].1.1}
  let %7 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(2, %2))[n("L0")].0, call "HashMap::into_iter"(post(2, %2))[n("L0")].1.2, %6, new "oak_visualize::layout::NodeType" Function{})
  let %8 = ("struct" === call "HashMap::into_iter"(post(2, %2))[n("L0")].1.3)
  let %9 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(2, %2))[n("L0")].0, call "HashMap::into_iter"(post(2, %2))[n("L0")].1.2, %6, new "oak_visualize::layout::NodeType" Struct{})
  let %10 = ("module" === call "HashMap::into_iter"(post(2, %2))[n("L0")].1.3)
  let %11 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(2, %2))[n("L0")].0, call "HashMap::into_iter"(post(2, %2))[n("L0")].1.2, %6, new "oak_visualize::layout::NodeType" Module{})
  let %12 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(2, %2))[n("L0")].0, call "HashMap::into_iter"(post(2, %2))[n("L0")].1.2, %6, new "oak_visualize::layout::NodeType" Default{})
case
  if not (n("L0") < len(call "HashMap::into_iter"(post(2, %2))))
  loop L0 | v0 from %3
  do %1
  do %2
  do %4
  ret new "core::result::Result" Ok{0: post(2, %4)}
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(2, %2))))
  if %5
  loop L0 | v0 from %3
  do %7
  then v0 := post(0, %7)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(2, %2))))
  if not %5
  if %8
  loop L0 | v0 from %3
  do %9
  then v0 := post(0, %9)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(2, %2))))
  if not %5
  if not %8
  if %10
  loop L0 | v0 from %3
  do %11
  then v0 := post(0, %11)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(2, %2))))
  if not %5
  if not %8
  if not %10
  loop L0 | v0 from %3
  do %12
  then v0 := post(0, %12)

fn oak_visualize::tree::TreeLayout::extract_positions  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::PositionedTreeNode; &mut std::collections::hash::map::HashMap<alloc::string::String, (oak_visualize::geometry::Point, oak_visualize::geometry::Size, alloc::string::String, alloc::string::String)>
  let %1 = hins((*$2), (*$1).id, tup{0: (*$1).position, 1: (*$1).size, 2: (*$1).label, 3: (*$1).node_type})
  let %2 = call "oak_visualize::tree::TreeLayout::extract_positions"($0, rv((*$1).children[n("L0")]), rv(lv("L0", "v0")))
case
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %1
  set $2 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %1
  do %2
  then v0 := post(2, %2)

fn oak_visualize::tree::TreeLayout::get_node_size  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode
case
  if ((*$1).size is Some)
  ret (*$1).size@Some.0
case
  if not ((*$1).size is Some)
  ret new "oak_visualize::geometry::Size"{width: (*$0).config.node_width, height: (*$0).config.node_height}

fn oak_visualize::tree::TreeLayout::layered_layout  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode
  given oak_visualize::layout::Layout::add_node_with_metadata
  given oak_visualize::tree::TreeLayout::add_tree_edges
  given oak_visualize::tree::TreeLayout::calculate_level_widths
  given oak_visualize::tree::TreeLayout::position_layered_node
  let %1 = call "oak_visualize::tree::TreeLayout::calculate_level_widths"($0, $1, 0, rv(hnew()))
  let %2 = call "oak_visualize::tree::TreeLayout::position_layered_node"($0, $1, 0, const('float', '0'), rv(post(3, %1)), rv(hnew()), rv(hnew()))
  let %3 = new "oak_visualize::layout::Layout"{bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: hnew(), edges: vnew()}
  let %4 = call "oak_visualize::tree::TreeLayout::add_tree_edges"($0, $1, rv(lv("L0", "v0")))
  let %5 = ("function" === call "HashMap::into_iter"(post(6, %2))[n("L0")].1.3)
  let %6 = new "oak_visualize::geometry::Rect"{origin: call "HashMap::into_iter"(post(6, %2))[n("L0")].1.0, size: call "HashMap::into_iter"(post(6, %2))[n("L0")].1.1}
  let %7 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(6, %2))[n("L0")].0, call "HashMap::into_iter"(post(6, %2))[n("L0")].1.2, %6, new "oak_visualize::layout::NodeType" Function{})
  let %8 = ("struct" === call "HashMap::into_iter"(post(6, %2))[n("L0")].1.3)
  let %9 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(6, %2))[n("L0")].0, call "HashMap::into_iter"(post(6, %2))[n("L0")].1.2, %6, new "oak_visualize::layout::NodeType" Struct{})
  let %10 = ("module" === call "HashMap::into_iter"(post(6, %2))[n("L0")].1.3)
  let %11 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(6, %2))[n("L0")].0, call "HashMap::into_iter"(post(6, %2))[n("L0")].1.2, %6, new "oak_visualize::layout::NodeType" Module{})
  let %12 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(6, %2))[n("L0")].0, call "HashMap::into_iter"(post(6, %2))[n("L0")].1.2, %6, new "oak_visualize::layout::NodeType" Default{})
case
  if not (n("L0") < len(call "HashMap::into_iter"(post(6, %2))))
  loop L0 | v0 from %3
  do %1
  do %2
  do %4
  ret new "core::result::Result" Ok{0: post(2, %4)}
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(6, %2))))
  if %5
  loop L0 | v0 from %3
  do %7
  then v0 := post(0, %7)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(6, %2))))
  if not %5
  if %8
  loop L0 | v0 from %3
  do %9
  then v0 := post(0, %9)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(6, %2))))
  if not %5
  if not %8
  if %10
  loop L0 | v0 from %3
  do %11
  then v0 := post(0, %11)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(6, %2))))
  if not %5
  if not %8
  if not %10
  loop L0 | v0 from %3
  do %12
  then v0 := post(0, %12)

fn oak_visualize::tree::TreeLayout::layout_tree
  given oak_visualize::geometry::Point::new
  given oak_visualize::geometry::Rect::new
  given oak_visualize::geometry::Size::new
  given oak_visualize::layout::Edge::new
  given oak_visualize::layout::Layout::add_edge
  given oak_visualize::layout::Layout::add_node_with_metadata
  given oak_visualize::layout::Layout::new
  let %1 = call "oak_visualize::geometry::Size::new"((*$0).config.node_width, (*$0).config.node_height)
  let %2 = case{((*$1).size is Some) => (*$1).size@Some.0.width; !((*$1).size is Some) => %1.width}
  let %3 = hins(hnew(), 0, op('fAdd', (*$0).config.sibling_distance, (%2 + const('float', '0'))))
  let %4 = call "<&f64 as core::ops::arith::Neg>::neg"(rv(hget(lv("L0", "v0"), 0)@Some.0))
  let %5 = hins(hnew(), 0, op('fAdd', (*$0).config.sibling_distance, (%2 + op('fDiv', %4, const('float', '4000000000000000')))))
  let %6 = call "oak_visualize::geometry::Point::new"(const('float', '0'), op('fMul', op('cast:IntToFloat', 0), (*$0).config.level_distance))
  let %7 = case{((*$1).size is Some) => (*$1).size@Some.0; !((*$1).size is Some) => %1}
  let %8 = hins(hnew(), (*$1).id, tup{0: %6, 1: %7, 2: (*$1).label, 3: (*$1).node_type})
  let %9 = call "oak_visualize::tree::TreeLayout::calculate_level_widths"($0, rv((*$1).children[n("L0")]), 1, rv(lv("L0", "v0")))
  let %10 = call "oak_visualize::tree::TreeLayout::position_layered_node"($0, rv((*$1).children[n("L1")]), 1, const('float', '0'), rv(lv("L0", "v0")), rv(lv("L1", "v0")), rv(lv("L1", "v1")))
  let %11 = ("function" === call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.3)
  let %12 = call "oak_visualize::geometry::Rect::new"(call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.0, call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.1)
  let %13 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].0, call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.2, %12, new "oak_visualize::layout::NodeType" Function{})
  let %14 = ("struct" === call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.3)
  let %15 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].0, call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.2, %12, new "oak_visualize::layout::NodeType" Struct{})
  let %16 = ("module" === call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.3)
  let %17 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].0, call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.2, %12, new "oak_visualize::layout::NodeType" Module{})
  let %18 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].0, call "HashMap::into_iter"(lv("L1", "v1"))[n("L2")].1.2, %12, new "oak_visualize::layout::NodeType" Default{})
  let %19 = call "oak_visualize::layout::Edge::new"((*$1).id, (*$1).children[n("L3")].id)
  let %20 = call "oak_visualize::layout::Layout::add_edge"(rv(lv("L3", "v0")), %19)
  let %21 = call "oak_visualize::tree::TreeLayout::add_tree_edges"($0, rv((*$1).children[n("L3")]), rv(post(0, %20)))
  let %22 = hins(hnew(), 0, op('fAdd', (*$0).config.sibling_distance, (%2 + op('fDiv', call "<&f64 as core::ops::arith::Neg>::neg"(rv(const('float', '0'))), const('float', '4000000000000000')))))
  let %23 = hins(hnew(), (*$1).id, tup{0: call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')), 1: %7, 2: (*$1).label, 3: (*$1).node_type})
  let %24 = call "oak_visualize::geometry::Point::new"(op('fSub', call "HashMap::into_iter"(%23)[n("L0")].1.0.x, op('fDiv', call "HashMap::into_iter"(%23)[n("L0")].1.1.width, const('float', '4000000000000000'))), op('fSub', call "HashMap::into_iter"(%23)[n("L0")].1.0.y, op('fDiv', call "HashMap::into_iter"(%23)[n("L0")].1.1.height, const('float', '4000000000000000'))))
  let %25 = call "oak_visualize::geometry::Rect::new"(%24, call "HashMap::into_iter"(%23)[n("L0")].1.1)
  let %26 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%23)[n("L0")].0, call "HashMap::into_iter"(%23)[n("L0")].1.2, %25, new "oak_visualize::layout::NodeType" Function{})
  let %27 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%23)[n("L0")].0, call "HashMap::into_iter"(%23)[n("L0")].1.2, %25, new "oak_visualize::layout::NodeType" Struct{})
  let %28 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%23)[n("L0")].0, call "HashMap::into_iter"(%23)[n("L0")].1.2, %25, new "oak_visualize::layout::NodeType" Module{})
  let %29 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%23)[n("L0")].0, call "HashMap::into_iter"(%23)[n("L0")].1.2, %25, new "oak_visualize::layout::NodeType" Default{})
  let %30 = op('fDiv', op('fMul', const('float', '4000000000000000'), const('float', '400921fb54442d18')), op('cast:IntToFloat', len((*$1).children)))
  let %31 = call "f64::cos"(op('fMul', %30, op('cast:IntToFloat', n("L0"))))
  let %32 = call "f64::sin"(op('fMul', %30, op('cast:IntToFloat', n("L0"))))
  let %33 = call "oak_visualize::geometry::Point::new"(op('fAdd', call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')).x, op('fMul', (*$0).config.level_distance, %31)), op('fAdd', call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')).y, op('fMul', (*$0).config.level_distance, %32)))
  let %34 = case{!((*$1).children[n("L0")].size is Some) => %1; ((*$1).children[n("L0")].size is Some) => (*$1).children[n("L0")].size@Some.0}
  let %35 = hins(lv("L0", "v0"), (*$1).children[n("L0")].id, tup{0: %33, 1: %34, 2: (*$1).children[n("L0")].label, 3: (*$1).children[n("L0")].node_type})
  let %36 = call "oak_visualize::tree::TreeLayout::position_balloon_children"($0, rv((*$1).children[n("L0")].children), %33, op('fMul', (*$0).config.level_distance, const('float', '3fe3333333333333')), rv(%35))
  let %37 = ("function" === call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.3)
  let %38 = call "oak_visualize::geometry::Point::new"(op('fSub', call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.0.x, op('fDiv', call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.1.width, const('float', '4000000000000000'))), op('fSub', call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.0.y, op('fDiv', call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.1.height, const('float', '4000000000000000'))))
  let %39 = call "oak_visualize::geometry::Rect::new"(%38, call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.1)
  let %40 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L1", "v0")), call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].0, call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.2, %39, new "oak_visualize::layout::NodeType" Function{})
  let %41 = ("struct" === call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.3)
  let %42 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L1", "v0")), call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].0, call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.2, %39, new "oak_visualize::layout::NodeType" Struct{})
  let %43 = ("module" === call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.3)
  let %44 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L1", "v0")), call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].0, call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.2, %39, new "oak_visualize::layout::NodeType" Module{})
  let %45 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L1", "v0")), call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].0, call "HashMap::into_iter"(lv("L0", "v0"))[n("L1")].1.2, %39, new "oak_visualize::layout::NodeType" Default{})
  let %46 = call "oak_visualize::layout::Edge::new"((*$1).id, (*$1).children[n("L2")].id)
  let %47 = call "oak_visualize::layout::Layout::add_edge"(rv(lv("L2", "v0")), %46)
  let %48 = call "oak_visualize::tree::TreeLayout::add_tree_edges"($0, rv((*$1).children[n("L2")]), rv(post(0, %47)))
  let %49 = call "oak_visualize::tree::TreeLayout::position_compact_node"($0, rv((*$1).children[n("L0")]), lv("L0", "v0"), op('fAdd', const('float', '0'), (*$0).config.level_distance), 1)
  let %50 = call "oak_visualize::geometry::Rect::new"(call "HashMap::into_iter"(%23)[n("L1")].1.0, call "HashMap::into_iter"(%23)[n("L1")].1.1)
  let %51 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L1", "v0")), call "HashMap::into_iter"(%23)[n("L1")].0, call "HashMap::into_iter"(%23)[n("L1")].1.2, %50, new "oak_visualize::layout::NodeType" Function{})
  let %52 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L1", "v0")), call "HashMap::into_iter"(%23)[n("L1")].0, call "HashMap::into_iter"(%23)[n("L1")].1.2, %50, new "oak_visualize::layout::NodeType" Struct{})
  let %53 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L1", "v0")), call "HashMap::into_iter"(%23)[n("L1")].0, call "HashMap::into_iter"(%23)[n("L1")].1.2, %50, new "oak_visualize::layout::NodeType" Module{})
  let %54 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L1", "v0")), call "HashMap::into_iter"(%23)[n("L1")].0, call "HashMap::into_iter"(%23)[n("L1")].1.2, %50, new "oak_visualize::layout::NodeType" Default{})
  let %55 = call "oak_visualize::geometry::Point::new"(op('fSub', op('fAdd', const('float', '0'), op('fDiv', op('fAdd', sum(j0, 0, len(lv("L0", "v1")), lv("L0", "v1")[?j0].subtree_width), op('fMul', (*$0).config.sibling_distance, op('cast:IntToFloat', (len(lv("L0", "v1")) - 1)))), const('float', '4000000000000000'))), op('fDiv', %2, const('float', '4000000000000000'))), const('float', '0'))
  let %56 = hins(hnew(), (*$1).id, tup{0: %55, 1: %7, 2: (*$1).label, 3: (*$1).node_type})
  let %57 = call "oak_visualize::tree::TreeLayout::extract_positions"($0, rv(lv("L0", "v1")[n("L1")]), rv(lv("L1", "v0")))
  let %58 = ("function" === call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.3)
  let %59 = call "oak_visualize::geometry::Rect::new"(call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.0, call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.1)
  let %60 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].0, call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.2, %59, new "oak_visualize::layout::NodeType" Function{})
  let %61 = ("struct" === call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.3)
  let %62 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].0, call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.2, %59, new "oak_visualize::layout::NodeType" Struct{})
  let %63 = ("module" === call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.3)
  let %64 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].0, call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.2, %59, new "oak_visualize::layout::NodeType" Module{})
  let %65 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].0, call "HashMap::into_iter"(lv("L1", "v0"))[n("L2")].1.2, %59, new "oak_visualize::layout::NodeType" Default{})
  let %66 = op('fAdd', op('fDiv', %30, const('float', '4000000000000000')), op('fAdd', const('float', '0'), op('fMul', %30, op('cast:IntToFloat', n("L0")))))
  let %67 = call "oak_visualize::geometry::Point::new"(op('fAdd', call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')).x, op('fMul', (*$0).config.level_distance, call "f64::cos"(%66))), op('fAdd', call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')).y, op('fMul', (*$0).config.level_distance, call "f64::sin"(%66))))
  let %68 = hins(lv("L0", "v0"), (*$1).children[n("L0")].id, tup{0: %67, 1: %34, 2: (*$1).children[n("L0")].label, 3: (*$1).children[n("L0")].node_type})
  let %69 = call "oak_visualize::tree::TreeLayout::position_radial_children"($0, rv((*$1).children[n("L0")].children), %67, op('fAdd', (*$0).config.level_distance, (*$0).config.level_distance), op('fSub', %66, op('fDiv', op('fMul', const('float', '3fe999999999999a'), %30), const('float', '4000000000000000'))), op('fMul', const('float', '3fe999999999999a'), %30), 2, rv(%68))
case
  if ((*$0).algorithm is Layered)
  if not (n("L0") < len((*$1).children))
  if (hget(lv("L0", "v0"), 0) is Some)
  if not (n("L1") < len((*$1).children))
  if not (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if not (n("L3") < len((*$1).children))
  loop L0 | v0 from %3
  loop L1 | v0 from %5 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do %1
  do %4
  do %6
  ret new "core::result::Result" Ok{0: lv("L3", "v0")}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %3
  do %9
  then v0 := post(3, %9)
pass L1
  if (n("L1") < len((*$1).children))
  loop L0 | v0 from %3
  loop L1 | v0 from %5 | v1 from %8
  do %10
  then v0 := post(5, %10)
  then v1 := post(6, %10)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if %11
  loop L0 | v0 from %3
  loop L1 | v0 from %5 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  then v0 := post(0, %13)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if not %11
  if %14
  loop L0 | v0 from %3
  loop L1 | v0 from %5 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %15
  then v0 := post(0, %15)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if not %11
  if not %14
  if %16
  loop L0 | v0 from %3
  loop L1 | v0 from %5 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %17
  then v0 := post(0, %17)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if not %11
  if not %14
  if not %16
  loop L0 | v0 from %3
  loop L1 | v0 from %5 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %18
  then v0 := post(0, %18)
pass L3
  if (n("L3") < len((*$1).children))
  loop L0 | v0 from %3
  loop L1 | v0 from %5 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do %19
  do %20
  do %21
  then v0 := post(2, %21)
case
  if ((*$0).algorithm is Layered)
  if not (n("L0") < len((*$1).children))
  if not (hget(lv("L0", "v0"), 0) is Some)
  if not (n("L1") < len((*$1).children))
  if not (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if not (n("L3") < len((*$1).children))
  loop L0 | v0 from %3
  loop L1 | v0 from %22 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do %1
  do call "<&f64 as core::ops::arith::Neg>::neg"(rv(const('float', '0')))
  do %6
  ret new "core::result::Result" Ok{0: lv("L3", "v0")}
pass L1
  if (n("L1") < len((*$1).children))
  loop L0 | v0 from %3
  loop L1 | v0 from %22 | v1 from %8
  do %10
  then v0 := post(5, %10)
  then v1 := post(6, %10)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if %11
  loop L0 | v0 from %3
  loop L1 | v0 from %22 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  then v0 := post(0, %13)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if not %11
  if %14
  loop L0 | v0 from %3
  loop L1 | v0 from %22 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %15
  then v0 := post(0, %15)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if not %11
  if not %14
  if %16
  loop L0 | v0 from %3
  loop L1 | v0 from %22 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %17
  then v0 := post(0, %17)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v1"))))
  if not %11
  if not %14
  if not %16
  loop L0 | v0 from %3
  loop L1 | v0 from %22 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %18
  then v0 := post(0, %18)
pass L3
  if (n("L3") < len((*$1).children))
  loop L0 | v0 from %3
  loop L1 | v0 from %22 | v1 from %8
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do %19
  do %20
  do %21
  then v0 := post(2, %21)
case
  if ((*$0).algorithm is Balloon)
  if (len((*$1).children) == 0)
  if not (n("L0") < len(call "HashMap::into_iter"(%23)))
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  ret new "core::result::Result" Ok{0: lv("L0", "v0")}
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%23)))
  if ("function" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  loop L0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %24
  do %25
  do %26
  then v0 := post(0, %26)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%23)))
  if not ("function" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  if ("struct" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  loop L0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %24
  do %25
  do %27
  then v0 := post(0, %27)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%23)))
  if not ("function" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  if not ("struct" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  if ("module" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  loop L0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %24
  do %25
  do %28
  then v0 := post(0, %28)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%23)))
  if not ("function" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  if not ("struct" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  if not ("module" === call "HashMap::into_iter"(%23)[n("L0")].1.3)
  loop L0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %24
  do %25
  do %29
  then v0 := post(0, %29)
case
  if ((*$0).algorithm is Balloon)
  if not (len((*$1).children) == 0)
  if not (n("L0") < len((*$1).children))
  if not (n("L1") < len(call "HashMap::into_iter"(lv("L0", "v0"))))
  if not (n("L2") < len((*$1).children))
  loop L0 @1 | v0 from %23
  loop L1 @2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L2 @3 | v0 from lv("L1", "v0")
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  ret new "core::result::Result" Ok{0: lv("L2", "v0")}
pass L0
  if (n("L0") < len((*$1).children))
  if (len((*$1).children[n("L0")].children) == 0)
  loop L0 @1 | v0 from %23
  do %31
  do %32
  do %33
  do %1
  then v0 := %35
pass L0
  if (n("L0") < len((*$1).children))
  if not (len((*$1).children[n("L0")].children) == 0)
  loop L0 @1 | v0 from %23
  do %31
  do %32
  do %33
  do %1
  do %36
  then v0 := post(4, %36)
pass L1
  if (n("L1") < len(call "HashMap::into_iter"(lv("L0", "v0"))))
  if %37
  loop L0 | v0 from %23
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %38
  do %39
  do %40
  then v0 := post(0, %40)
pass L1
  if (n("L1") < len(call "HashMap::into_iter"(lv("L0", "v0"))))
  if not %37
  if %41
  loop L0 | v0 from %23
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %38
  do %39
  do %42
  then v0 := post(0, %42)
pass L1
  if (n("L1") < len(call "HashMap::into_iter"(lv("L0", "v0"))))
  if not %37
  if not %41
  if %43
  loop L0 | v0 from %23
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %38
  do %39
  do %44
  then v0 := post(0, %44)
pass L1
  if (n("L1") < len(call "HashMap::into_iter"(lv("L0", "v0"))))
  if not %37
  if not %41
  if not %43
  loop L0 | v0 from %23
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %38
  do %39
  do %45
  then v0 := post(0, %45)
pass L2
  if (n("L2") < len((*$1).children))
  loop L0 | v0 from %23
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L2 | v0 from lv("L1", "v0")
  do %46
  do %47
  do %48
  then v0 := post(2, %48)
case
  if ((*$0).algorithm is Compact)
  if not (n("L0") < len((*$1).children))
  if (len(lv("L0", "v1")) == 0)
  if not (n("L1") < len(call "HashMap::into_iter"(%23)))
  if not (n("L2") < len((*$1).children))
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L2 | v0 from lv("L1", "v0")
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  ret new "core::result::Result" Ok{0: lv("L2", "v0")}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  do %49
  then v0 := op('fAdd', lv("L0", "v0"), op('fAdd', (*$0).config.sibling_distance, %49.subtree_width))
  then v1 := vpush(lv("L0", "v1"), %49)
pass L1
  if (n("L1") < len(call "HashMap::into_iter"(%23)))
  if ("function" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %50
  do %51
  then v0 := post(0, %51)
pass L1
  if (n("L1") < len(call "HashMap::into_iter"(%23)))
  if not ("function" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  if ("struct" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %50
  do %52
  then v0 := post(0, %52)
pass L1
  if (n("L1") < len(call "HashMap::into_iter"(%23)))
  if not ("function" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  if not ("struct" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  if ("module" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %50
  do %53
  then v0 := post(0, %53)
pass L1
  if (n("L1") < len(call "HashMap::into_iter"(%23)))
  if not ("function" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  if not ("struct" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  if not ("module" === call "HashMap::into_iter"(%23)[n("L1")].1.3)
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %50
  do %54
  then v0 := post(0, %54)
pass L2
  if (n("L2") < len((*$1).children))
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop L1 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L2 | v0 from lv("L1", "v0")
  do %46
  do %47
  do %48
  then v0 := post(2, %48)
case
  if ((*$0).algorithm is Compact)
  if not (n("L0") < len((*$1).children))
  if not (len(lv("L0", "v1")) == 0)
  if not (n("C0") < len(lv("L0", "v1")))
  if not (n("L1") < len(lv("L0", "v1")))
  if not (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v0"))))
  if not (n("L3") < len((*$1).children))
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop C0
  loop L1 | v0 from %56
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do %55
  ret new "core::result::Result" Ok{0: lv("L3", "v0")}
pass L1
  if (n("L1") < len(lv("L0", "v1")))
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop C0
  loop L1 | v0 from %56
  do %57
  then v0 := post(2, %57)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v0"))))
  if %58
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop C0
  loop L1 | v0 from %56
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %59
  do %60
  then v0 := post(0, %60)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v0"))))
  if not %58
  if %61
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop C0
  loop L1 | v0 from %56
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %59
  do %62
  then v0 := post(0, %62)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v0"))))
  if not %58
  if not %61
  if %63
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop C0
  loop L1 | v0 from %56
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %59
  do %64
  then v0 := post(0, %64)
pass L2
  if (n("L2") < len(call "HashMap::into_iter"(lv("L1", "v0"))))
  if not %58
  if not %61
  if not %63
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop C0
  loop L1 | v0 from %56
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %59
  do %65
  then v0 := post(0, %65)
pass L3
  if (n("L3") < len((*$1).children))
  loop L0 | v0 from const('float', '0') | v1 from vnew()
  loop C0
  loop L1 | v0 from %56
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do %19
  do %20
  do %21
  then v0 := post(2, %21)
case
  if ((*$0).algorithm is Radial)
  if (len((*$1).children) == 0)
  if not (n("L0") < len(call "HashMap::into_iter"(%23)))
  loop L0 @4 | v0 from call "oak_visualize::layout::Layout::new"()
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  ret new "core::result::Result" Ok{0: lv("L0", "v0")}
case
  if ((*$0).algorithm is Radial)
  if not (len((*$1).children) == 0)
  if not (n("L0") < len((*$1).children))
  if not (n("L1") < len(call "HashMap::into_iter"(lv("L0", "v0"))))
  if not (n("L2") < len((*$1).children))
  loop L0 @5 | v0 from %23
  loop L1 @6 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L2 @7 | v0 from lv("L1", "v0")
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  ret new "core::result::Result" Ok{0: lv("L2", "v0")}
pass L0
  if (n("L0") < len((*$1).children))
  if (len((*$1).children[n("L0")].children) == 0)
  loop L0 @5 | v0 from %23
  do call "f64::cos"(%66)
  do call "f64::sin"(%66)
  do %67
  do %1
  then v0 := %68
pass L0
  if (n("L0") < len((*$1).children))
  if not (len((*$1).children[n("L0")].children) == 0)
  loop L0 @5 | v0 from %23
  do call "f64::cos"(%66)
  do call "f64::sin"(%66)
  do %67
  do %1
  do %69
  then v0 := post(7, %69)

fn oak_visualize::tree::TreeLayout::new
case
  ret new "oak_visualize::tree::TreeLayout"{algorithm: new "oak_visualize::tree::TreeLayoutAlgorithm" Layered{}, config: new "oak_visualize::tree::TreeLayoutConfig"{node_width: const('float', '4059000000000000'), node_height: const('float', '4044000000000000'), level_distance: const('float', '4054000000000000'), sibling_distance: const('float', '4034000000000000'), subtree_distance: const('float', '4044000000000000')}}

fn oak_visualize::tree::TreeLayout::position_balloon_children  [private]
  takes &oak_visualize::tree::TreeLayout; &[oak_visualize::tree::TreeNode]; oak_visualize::geometry::Point; f64; &mut std::collections::hash::map::HashMap<alloc::string::String, (oak_visualize::geometry::Point, oak_visualize::geometry::Size, alloc::string::String, alloc::string::String)>
  let %1 = op('fMul', op('fDiv', op('fMul', const('float', '4000000000000000'), const('float', '400921fb54442d18')), op('cast:IntToFloat', len((*$1)))), op('cast:IntToFloat', n("L0")))
  let %2 = new "oak_visualize::geometry::Point"{x: op('fAdd', $2.x, op('fMul', $3, call "f64::cos"(%1))), y: op('fAdd', $2.y, op('fMul', $3, call "f64::sin"(%1)))}
  let %3 = hins(lv("L0", "v0"), (*$1)[n("L0")].id, tup{0: %2, 1: (*$1)[n("L0")].size@Some.0, 2: (*$1)[n("L0")].label, 3: (*$1)[n("L0")].node_type})
  let %4 = call "oak_visualize::tree::TreeLayout::position_balloon_children"($0, rv((*$1)[n("L0")].children), %2, op('fMul', const('float', '3fe3333333333333'), $3), rv(%3))
  let %5 = hins(lv("L0", "v0"), (*$1)[n("L0")].id, tup{0: %2, 1: new "oak_visualize::geometry::Size"{width: (*$0).config.node_width, height: (*$0).config.node_height}, 2: (*$1)[n("L0")].label, 3: (*$1)[n("L0")].node_type})
  let %6 = call "oak_visualize::tree::TreeLayout::position_balloon_children"($0, rv((*$1)[n("L0")].children), %2, op('fMul', const('float', '3fe3333333333333'), $3), rv(%5))
case
  if (len((*$1)) == 0)
  ret tup{}
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  loop L0 | v0 from (*$4)
  set $4 := lv("L0", "v0")
  ret tup{}
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if ((*$1)[n("L0")].size is Some)
  if (len((*$1)[n("L0")].children) == 0)
  loop L0 | v0 from (*$4)
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  then v0 := %3
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if ((*$1)[n("L0")].size is Some)
  if not (len((*$1)[n("L0")].children) == 0)
  loop L0 | v0 from (*$4)
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  do %4
  then v0 := post(4, %4)
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if not ((*$1)[n("L0")].size is Some)
  if (len((*$1)[n("L0")].children) == 0)
  loop L0 | v0 from (*$4)
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  then v0 := %5
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if not ((*$1)[n("L0")].size is Some)
  if not (len((*$1)[n("L0")].children) == 0)
  loop L0 | v0 from (*$4)
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  do %6
  then v0 := post(4, %6)

fn oak_visualize::tree::TreeLayout::position_compact_node  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode; f64; f64; usize
  let %1 = call "oak_visualize::tree::TreeLayout::position_compact_node"($0, rv((*$1).children[n("L0")]), lv("L0", "v0"), op('fAdd', (*$0).config.level_distance, $3), ($4 + 1))
  let %2 = op('fAdd', sum(j0, 0, len(lv("L0", "v1")), lv("L0", "v1")[?j0].subtree_width), op('fMul', (*$0).config.sibling_distance, op('cast:IntToFloat', (len(lv("L0", "v1")) - 1))))
  let %3 = op('fAdd', $2, op('fDiv', %2, const('float', '4000000000000000')))
  let %4 = new "oak_visualize::geometry::Size"{width: (*$0).config.node_width, height: (*$0).config.node_height}
case
  if ((*$1).size is Some)
  if not (n("L0") < len((*$1).children))
  if (len(lv("L0", "v1")) == 0)
  loop L0 @0 | v0 from $2 | v1 from vnew()
  ret new "oak_visualize::tree::PositionedTreeNode"{id: (*$1).id, label: (*$1).label, node_type: (*$1).node_type, position: new "oak_visualize::geometry::Point"{x: $2, y: $3}, size: (*$1).size@Some.0, subtree_width: (*$1).size@Some.0.width, children: lv("L0", "v1")}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from $2 | v1 from vnew()
  do %1
  then v0 := op('fAdd', lv("L0", "v0"), op('fAdd', (*$0).config.sibling_distance, %1.subtree_width))
  then v1 := vpush(lv("L0", "v1"), %1)
case
  if ((*$1).size is Some)
  if not (n("L0") < len((*$1).children))
  if not (len(lv("L0", "v1")) == 0)
  loop L0 @0 | v0 from $2 | v1 from vnew()
  ret new "oak_visualize::tree::PositionedTreeNode"{id: (*$1).id, label: (*$1).label, node_type: (*$1).node_type, position: new "oak_visualize::geometry::Point"{x: op('fSub', %3, op('fDiv', (*$1).size@Some.0.width, const('float', '4000000000000000'))), y: $3}, size: (*$1).size@Some.0, subtree_width: %2, children: lv("L0", "v1")}
case
  if not ((*$1).size is Some)
  if not (n("L0") < len((*$1).children))
  if (len(lv("L0", "v1")) == 0)
  loop L0 @1 | v0 from $2 | v1 from vnew()
  ret new "oak_visualize::tree::PositionedTreeNode"{id: (*$1).id, label: (*$1).label, node_type: (*$1).node_type, position: new "oak_visualize::geometry::Point"{x: $2, y: $3}, size: %4, subtree_width: (*$0).config.node_width, children: lv("L0", "v1")}
case
  if not ((*$1).size is Some)
  if not (n("L0") < len((*$1).children))
  if not (len(lv("L0", "v1")) == 0)
  loop L0 @1 | v0 from $2 | v1 from vnew()
  ret new "oak_visualize::tree::PositionedTreeNode"{id: (*$1).id, label: (*$1).label, node_type: (*$1).node_type, position: new "oak_visualize::geometry::Point"{x: op('fSub', %3, op('fDiv', (*$0).config.node_width, const('float', '4000000000000000'))), y: $3}, size: %4, subtree_width: %2, children: lv("L0", "v1")}

fn oak_visualize::tree::TreeLayout::position_layered_node  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode; usize; f64; &std::collections::hash::map::HashMap<usize, f64>; &mut std::collections::hash::map::HashMap<usize, f64>; &mut std::collections::hash::map::HashMap<alloc::string::String, (oak_visualize::geometry::Point, oak_visualize::geometry::Size, alloc::string::String, alloc::string::String)>
  given oak_visualize::geometry::Point::new
  given oak_visualize::geometry::Size::new
  let %1 = call "oak_visualize::geometry::Size::new"((*$0).config.node_width, (*$0).config.node_height)
  let %2 = case{((*$1).size is Some) => (*$1).size@Some.0.width; !((*$1).size is Some) => %1.width}
  let %3 = hins((*$5), $2, op('fAdd', (*$0).config.sibling_distance, (%2 + hget((*$5), $2)@Some.0)))
  let %4 = op('fMul', (*$0).config.level_distance, op('cast:IntToFloat', $2))
  let %5 = call "oak_visualize::geometry::Point::new"(const('float', '0'), %4)
  let %6 = case{((*$1).size is Some) => (*$1).size@Some.0; !((*$1).size is Some) => %1}
  let %7 = hins((*$6), (*$1).id, tup{0: %5, 1: %6, 2: (*$1).label, 3: (*$1).node_type})
  let %8 = call "<&f64 as core::ops::arith::Neg>::neg"(rv(hget((*$4), $2)@Some.0))
  let %9 = call "oak_visualize::tree::TreeLayout::position_layered_node"($0, rv((*$1).children[n("L0")]), ($2 + 1), const('float', '0'), $4, rv(lv("L0", "v0")), rv(lv("L0", "v1")))
  let %10 = op('fAdd', hget((*$5), $2)@Some.0, op('fDiv', %2, const('float', '4000000000000000')))
  let %11 = hins((*$6), (*$1).id, tup{0: call "oak_visualize::geometry::Point::new"(%10, %4), 1: %6, 2: (*$1).label, 3: (*$1).node_type})
  let %12 = call "oak_visualize::tree::TreeLayout::position_layered_node"($0, rv((*$1).children[n("L0")]), ($2 + 1), %10, $4, rv(lv("L0", "v1")), rv(lv("L0", "v0")))
  let %13 = hins((*$5), $2, op('fAdd', (*$0).config.sibling_distance, (%2 + op('fDiv', %8, const('float', '4000000000000000')))))
  let %14 = op('fAdd', op('fDiv', %8, const('float', '4000000000000000')), op('fDiv', %2, const('float', '4000000000000000')))
  let %15 = hins((*$6), (*$1).id, tup{0: call "oak_visualize::geometry::Point::new"(%14, %4), 1: %6, 2: (*$1).label, 3: (*$1).node_type})
  let %16 = call "oak_visualize::tree::TreeLayout::position_layered_node"($0, rv((*$1).children[n("L0")]), ($2 + 1), %14, $4, rv(lv("L0", "v1")), rv(lv("L0", "v0")))
  let %17 = op('fDiv', call "<&f64 as core::ops::arith::Neg>::neg"(rv(const('float', '0'))), const('float', '4000000000000000'))
  let %18 = hins((*$5), $2, op('fAdd', (*$0).config.sibling_distance, (%17 + %2)))
  let %19 = call "oak_visualize::tree::TreeLayout::position_layered_node"($0, rv((*$1).children[n("L0")]), ($2 + 1), const('float', '0'), $4, rv(lv("L0", "v1")), rv(lv("L0", "v0")))
  let %20 = op('fAdd', %17, op('fDiv', %2, const('float', '4000000000000000')))
  let %21 = hins((*$6), (*$1).id, tup{0: call "oak_visualize::geometry::Point::new"(%20, %4), 1: %6, 2: (*$1).label, 3: (*$1).node_type})
  let %22 = call "oak_visualize::tree::TreeLayout::position_layered_node"($0, rv((*$1).children[n("L0")]), ($2 + 1), %20, $4, rv(lv("L0", "v1")), rv(lv("L0", "v0")))
case
  if (hget((*$4), $2) is Some)
  if (hget((*$5), $2) is Some)
  if ($2 == 0)
  if not (n("L0") < len((*$1).children))
  loop L0 @0 | v0 from %3 | v1 from %7
  do %1
  do %8
  do %5
  set $5 := lv("L0", "v0")
  set $6 := lv("L0", "v1")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %3 | v1 from %7
  do %9
  then v0 := post(5, %9)
  then v1 := post(6, %9)
case
  if (hget((*$4), $2) is Some)
  if (hget((*$5), $2) is Some)
  if not ($2 == 0)
  if not (n("L0") < len((*$1).children))
  loop L0 @1 | v0 from %11 | v1 from %3
  do %1
  do %8
  do call "oak_visualize::geometry::Point::new"(%10, %4)
  set $5 := lv("L0", "v1")
  set $6 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %11 | v1 from %3
  do %12
  then v0 := post(6, %12)
  then v1 := post(5, %12)
case
  if (hget((*$4), $2) is Some)
  if not (hget((*$5), $2) is Some)
  if ($2 == 0)
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %13 | v1 from %7
  do %1
  do %8
  do %5
  set $5 := lv("L0", "v0")
  set $6 := lv("L0", "v1")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %13 | v1 from %7
  do %9
  then v0 := post(5, %9)
  then v1 := post(6, %9)
case
  if (hget((*$4), $2) is Some)
  if not (hget((*$5), $2) is Some)
  if not ($2 == 0)
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %15 | v1 from %13
  do %1
  do %8
  do call "oak_visualize::geometry::Point::new"(%14, %4)
  set $5 := lv("L0", "v1")
  set $6 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %15 | v1 from %13
  do %16
  then v0 := post(6, %16)
  then v1 := post(5, %16)
case
  if not (hget((*$4), $2) is Some)
  if (hget((*$5), $2) is Some)
  if ($2 == 0)
  if not (n("L0") < len((*$1).children))
  loop L0 @2 | v0 from %3 | v1 from %7
  do %1
  do call "<&f64 as core::ops::arith::Neg>::neg"(rv(const('float', '0')))
  do %5
  set $5 := lv("L0", "v0")
  set $6 := lv("L0", "v1")
  ret tup{}
case
  if not (hget((*$4), $2) is Some)
  if (hget((*$5), $2) is Some)
  if not ($2 == 0)
  if not (n("L0") < len((*$1).children))
  loop L0 @3 | v0 from %11 | v1 from %3
  do %1
  do call "<&f64 as core::ops::arith::Neg>::neg"(rv(const('float', '0')))
  do call "oak_visualize::geometry::Point::new"(%10, %4)
  set $5 := lv("L0", "v1")
  set $6 := lv("L0", "v0")
  ret tup{}
case
  if not (hget((*$4), $2) is Some)
  if not (hget((*$5), $2) is Some)
  if ($2 == 0)
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %7 | v1 from %18
  do %1
  do call "<&f64 as core::ops::arith::Neg>::neg"(rv(const('float', '0')))
  do %5
  set $5 := lv("L0", "v1")
  set $6 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %7 | v1 from %18
  do %19
  then v0 := post(6, %19)
  then v1 := post(5, %19)
case
  if not (hget((*$4), $2) is Some)
  if not (hget((*$5), $2) is Some)
  if not ($2 == 0)
  if not (n("L0") < len((*$1).children))
  loop L0 | v0 from %21 | v1 from %18
  do %1
  do call "<&f64 as core::ops::arith::Neg>::neg"(rv(const('float', '0')))
  do call "oak_visualize::geometry::Point::new"(%20, %4)
  set $5 := lv("L0", "v1")
  set $6 := lv("L0", "v0")
  ret tup{}
pass L0
  if (n("L0") < len((*$1).children))
  loop L0 | v0 from %21 | v1 from %18
  do %22
  then v0 := post(6, %22)
  then v1 := post(5, %22)

fn oak_visualize::tree::TreeLayout::position_radial_children  [private]
  takes &oak_visualize::tree::TreeLayout; &[oak_visualize::tree::TreeNode]; oak_visualize::geometry::Point; f64; f64; f64; usize; &mut std::collections::hash::map::HashMap<alloc::string::String, (oak_visualize::geometry::Point, oak_visualize::geometry::Size, alloc::string::String, alloc::string::String)>
  let %1 = op('fAdd', op('fDiv', op('fDiv', $5, op('cast:IntToFloat', len((*$1)))), const('float', '4000000000000000')), op('fAdd', $4, op('fMul', op('fDiv', $5, op('cast:IntToFloat', len((*$1)))), op('cast:IntToFloat', n("L0")))))
  let %2 = new "oak_visualize::geometry::Point"{x: op('fAdd', $2.x, op('fMul', $3, call "f64::cos"(%1))), y: op('fAdd', $2.y, op('fMul', $3, call "f64::sin"(%1)))}
  let %3 = hins(lv("L0", "v0"), (*$1)[n("L0")].id, tup{0: %2, 1: (*$1)[n("L0")].size@Some.0, 2: (*$1)[n("L0")].label, 3: (*$1)[n("L0")].node_type})
  let %4 = op('fMul', const('float', '3fe999999999999a'), op('fDiv', $5, op('cast:IntToFloat', len((*$1)))))
  let %5 = op('fSub', %1, op('fDiv', %4, const('float', '4000000000000000')))
  let %6 = call "oak_visualize::tree::TreeLayout::position_radial_children"($0, rv((*$1)[n("L0")].children), %2, op('fAdd', (*$0).config.level_distance, $3), %5, %4, ($6 + 1), rv(%3))
  let %7 = hins(lv("L0", "v0"), (*$1)[n("L0")].id, tup{0: %2, 1: new "oak_visualize::geometry::Size"{width: (*$0).config.node_width, height: (*$0).config.node_height}, 2: (*$1)[n("L0")].label, 3: (*$1)[n("L0")].node_type})
  let %8 = call "oak_visualize::tree::TreeLayout::position_radial_children"($0, rv((*$1)[n("L0")].children), %2, op('fAdd', (*$0).config.level_distance, $3), %5, %4, ($6 + 1), rv(%7))
case
  if (len((*$1)) == 0)
  ret tup{}
case
  if not (len((*$1)) == 0)
  if (len((*$1)) < n("L0") + 1)
  loop L0 | v0 from (*$7)
  set $7 := lv("L0", "v0")
  ret tup{}
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if ((*$1)[n("L0")].size is Some)
  if (len((*$1)[n("L0")].children) == 0)
  loop L0 | v0 from (*$7)
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  then v0 := %3
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if ((*$1)[n("L0")].size is Some)
  if not (len((*$1)[n("L0")].children) == 0)
  loop L0 | v0 from (*$7)
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  do %6
  then v0 := post(7, %6)
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if not ((*$1)[n("L0")].size is Some)
  if (len((*$1)[n("L0")].children) == 0)
  loop L0 | v0 from (*$7)
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  then v0 := %7
pass L0
  if not (len((*$1)) < n("L0") + 1)
  if not ((*$1)[n("L0")].size is Some)
  if not (len((*$1)[n("L0")].children) == 0)
  loop L0 | v0 from (*$7)
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  do %8
  then v0 := post(7, %8)

fn oak_visualize::tree::TreeLayout::radial_layout  [private]
  takes &oak_visualize::tree::TreeLayout; &oak_visualize::tree::TreeNode
  given oak_visualize::geometry::Point::new
  given oak_visualize::geometry::Rect::new
  given oak_visualize::geometry::Size::new
  given oak_visualize::layout::Layout::add_node_with_metadata
  given oak_visualize::layout::Layout::new
  given oak_visualize::tree::TreeLayout::add_tree_edges
  given oak_visualize::tree::TreeLayout::position_radial_children
  let %1 = call "oak_visualize::geometry::Size::new"((*$0).config.node_width, (*$0).config.node_height)
  let %2 = hins(hnew(), (*$1).id, tup{0: call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')), 1: case{((*$1).size is Some) => (*$1).size@Some.0; !((*$1).size is Some) => %1}, 2: (*$1).label, 3: (*$1).node_type})
  let %3 = call "oak_visualize::tree::TreeLayout::add_tree_edges"($0, $1, rv(lv("L0", "v0")))
  let %4 = call "oak_visualize::geometry::Point::new"(op('fSub', call "HashMap::into_iter"(%2)[n("L0")].1.0.x, op('fDiv', call "HashMap::into_iter"(%2)[n("L0")].1.1.width, const('float', '4000000000000000'))), op('fSub', call "HashMap::into_iter"(%2)[n("L0")].1.0.y, op('fDiv', call "HashMap::into_iter"(%2)[n("L0")].1.1.height, const('float', '4000000000000000'))))
  let %5 = call "oak_visualize::geometry::Rect::new"(%4, call "HashMap::into_iter"(%2)[n("L0")].1.1)
  let %6 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%2)[n("L0")].0, call "HashMap::into_iter"(%2)[n("L0")].1.2, %5, new "oak_visualize::layout::NodeType" Function{})
  let %7 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%2)[n("L0")].0, call "HashMap::into_iter"(%2)[n("L0")].1.2, %5, new "oak_visualize::layout::NodeType" Struct{})
  let %8 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%2)[n("L0")].0, call "HashMap::into_iter"(%2)[n("L0")].1.2, %5, new "oak_visualize::layout::NodeType" Module{})
  let %9 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(%2)[n("L0")].0, call "HashMap::into_iter"(%2)[n("L0")].1.2, %5, new "oak_visualize::layout::NodeType" Default{})
  let %10 = call "oak_visualize::tree::TreeLayout::position_radial_children"($0, rv((*$1).children), call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0')), (*$0).config.level_distance, const('float', '0'), op('fMul', const('float', '4000000000000000'), const('float', '400921fb54442d18')), 1, rv(%2))
  let %11 = ("function" === call "HashMap::into_iter"(post(7, %10))[n("L0")].1.3)
  let %12 = call "oak_visualize::geometry::Point::new"(op('fSub', call "HashMap::into_iter"(post(7, %10))[n("L0")].1.0.x, op('fDiv', call "HashMap::into_iter"(post(7, %10))[n("L0")].1.1.width, const('float', '4000000000000000'))), op('fSub', call "HashMap::into_iter"(post(7, %10))[n("L0")].1.0.y, op('fDiv', call "HashMap::into_iter"(post(7, %10))[n("L0")].1.1.height, const('float', '4000000000000000'))))
  let %13 = call "oak_visualize::geometry::Rect::new"(%12, call "HashMap::into_iter"(post(7, %10))[n("L0")].1.1)
  let %14 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(7, %10))[n("L0")].0, call "HashMap::into_iter"(post(7, %10))[n("L0")].1.2, %13, new "oak_visualize::layout::NodeType" Function{})
  let %15 = ("struct" === call "HashMap::into_iter"(post(7, %10))[n("L0")].1.3)
  let %16 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(7, %10))[n("L0")].0, call "HashMap::into_iter"(post(7, %10))[n("L0")].1.2, %13, new "oak_visualize::layout::NodeType" Struct{})
  let %17 = ("module" === call "HashMap::into_iter"(post(7, %10))[n("L0")].1.3)
  let %18 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(7, %10))[n("L0")].0, call "HashMap::into_iter"(post(7, %10))[n("L0")].1.2, %13, new "oak_visualize::layout::NodeType" Module{})
  let %19 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), call "HashMap::into_iter"(post(7, %10))[n("L0")].0, call "HashMap::into_iter"(post(7, %10))[n("L0")].1.2, %13, new "oak_visualize::layout::NodeType" Default{})
case
  if (len((*$1).children) == 0)
  if not (n("L0") < len(call "HashMap::into_iter"(%2)))
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  do %3
  ret new "core::result::Result" Ok{0: post(2, %3)}
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%2)))
  if ("function" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %4
  do %5
  do %6
  then v0 := post(0, %6)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%2)))
  if not ("function" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if ("struct" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %4
  do %5
  do %7
  then v0 := post(0, %7)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%2)))
  if not ("function" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if not ("struct" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if ("module" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %4
  do %5
  do %8
  then v0 := post(0, %8)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(%2)))
  if not ("function" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if not ("struct" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  if not ("module" === call "HashMap::into_iter"(%2)[n("L0")].1.3)
  loop L0 @0 | v0 from call "oak_visualize::layout::Layout::new"()
  do %4
  do %5
  do %9
  then v0 := post(0, %9)
case
  if not (len((*$1).children) == 0)
  if not (n("L0") < len(call "HashMap::into_iter"(post(7, %10))))
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do call "oak_visualize::layout::Layout::new"()
  do %1
  do call "oak_visualize::geometry::Point::new"(const('float', '0'), const('float', '0'))
  do %10
  do %3
  ret new "core::result::Result" Ok{0: post(2, %3)}
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(7, %10))))
  if %11
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  do %14
  then v0 := post(0, %14)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(7, %10))))
  if not %11
  if %15
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  do %16
  then v0 := post(0, %16)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(7, %10))))
  if not %11
  if not %15
  if %17
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  do %18
  then v0 := post(0, %18)
pass L0
  if (n("L0") < len(call "HashMap::into_iter"(post(7, %10))))
  if not %11
  if not %15
  if not %17
  loop L0 @1 | v0 from call "oak_visualize::layout::Layout::new"()
  do %12
  do %13
  do %19
  then v0 := post(0, %19)

fn oak_visualize::tree::TreeLayout::visualize
  given oak_visualize::render::SvgRenderer::new
  given oak_visualize::render::SvgRenderer::render_layout
  given oak_visualize::tree::TreeLayout::layout_tree
  let %1 = call "oak_visualize::render::SvgRenderer::render_layout"(rv(call "oak_visualize::render::SvgRenderer::new"()), rv(call "oak_visualize::tree::TreeLayout::layout_tree"($0, $1)@Ok.0))
case
  if (call "oak_visualize::tree::TreeLayout::layout_tree"($0, $1) is Err)
  do call "oak_visualize::tree::TreeLayout::layout_tree"($0, $1)
  ret new "core::result::Result" Err{0: call "oak_visualize::tree::TreeLayout::layout_tree"($0, $1)@Err.0}
case
  if not (call "oak_visualize::tree::TreeLayout::layout_tree"($0, $1) is Err)
  do call "oak_visualize::tree::TreeLayout::layout_tree"($0, $1)
  do call "oak_visualize::render::SvgRenderer::new"()
  do %1
  ret %1

fn oak_visualize::tree::TreeLayout::with_algorithm
case
  ret ($0 with {algorithm: $1})

fn oak_visualize::tree::TreeLayout::with_config
case
  ret ($0 with {config: $1})

fn oak_visualize::tree::TreeNode::depth
  let %1 = call "core::iter::traits::iterator::Iterator::max"(new "it.map"{inner: new "it.slice"{seq: rv((*$0).children), pos: 0, end: len((*$0).children)}, f: clo('oak_visualize::tree::TreeNode::depth::{closure#0}', <>)})
case
  if (len((*$0).children) == 0)
  ret 1
case
  if not (len((*$0).children) == 0)
  do %1
  ret (case{(%1 is Some) => %1@Some.0; !(%1 is Some) => 0} + 1)

fn oak_visualize::tree::TreeNode::depth::{closure#0}  [private]
  takes &oak_visualize::tree::TreeNode
  given oak_visualize::tree::TreeNode::depth
case
  do call "oak_visualize::tree::TreeNode::depth"($1)
  ret call "oak_visualize::tree::TreeNode::depth"($1)

fn oak_visualize::tree::TreeNode::is_leaf
case
  ret (len((*$0).children) == 0)

fn oak_visualize::tree::TreeNode::leaf_count
case
  if (len((*$0).children) == 0)
  ret 1
case
  if not (len((*$0).children) == 0)
  if not (n("C0") < len((*$0).children))
  loop C0
  ret sum(j0, 0, len((*$0).children), call "oak_visualize::tree::TreeNode::leaf_count"(rv((*$0).children[?j0])))
pass C0
  if (n("C0") < len((*$0).children))
  loop C0
  do call "oak_visualize::tree::TreeNode::leaf_count"(rv((*$0).children[n("C0")]))

fn oak_visualize::tree::TreeNode::new
case
  ret new "oak_visualize::tree::TreeNode"{id: $0, label: $1, node_type: $2, children: vnew(), attributes: hnew(), size: new "core::option::Option" None{}}

fn oak_visualize::tree::TreeNode::node_count
case
  if not (n("C0") < len((*$0).children))
  loop C0
  ret (sum(j0, 0, len((*$0).children), call "oak_visualize::tree::TreeNode::node_count"(rv((*$0).children[?j0]))) + 1)
pass C0
  if (n("C0") < len((*$0).children))
  loop C0
  do call "oak_visualize::tree::TreeNode::node_count"(rv((*$0).children[n("C0")]))

fn oak_visualize::tree::TreeNode::with_attribute
case
  ret ($0 with {attributes: hins($0.attributes, $1, $2)})

fn oak_visualize::tree::TreeNode::with_child
case
  ret ($0 with {children: vpush($0.children, $1)})

fn oak_visualize::tree::TreeNode::with_children
case
  ret ($0 with {children: $1})

fn oak_visualize::tree::TreeNode::with_size
case
  ret ($0 with {size: new "core::option::Option" Some{0: $1}})

fn oak_visualize::tree::TreeRenderer::find_node_label  [private]
  takes &oak_visualize::tree::TreeRenderer; &oak_visualize::tree::TreeNode; &str
  let %1 = call "oak_visualize::tree::TreeRenderer::find_node_label"($0, rv((*$1).children[n("C0")]), $2)
case
  if ($2 === (*$1).id)
  ret new "core::option::Option" Some{0: (*$1).label}
case
  if not ($2 === (*$1).id)
  if not (n("C0") < len((*$1).children))
  loop C0
  ret new "core::option::Option" None{}
pass C0
  if (n("C0") < len((*$1).children))
  if not (%1 is Some)
  loop C0
  do %1
case
  if not ($2 === (*$1).id)
  if (n("C0") < len((*$1).children))
  if (%1 is Some)
  loop C0
  do %1
  ret new "core::option::Option" Some{0: %1@Some.0}

fn oak_visualize::tree::TreeRenderer::get_node_label  [private]
  takes &oak_visualize::tree::TreeRenderer; &oak_visualize::tree::TreeNode; &str
  given oak_visualize::tree::TreeRenderer::find_node_label
  let %1 = (call "oak_visualize::tree::TreeRenderer::find_node_label"($0, $1, $2) is Some)
case
  do call "oak_visualize::tree::TreeRenderer::find_node_label"($0, $1, $2)
  ret case{!%1 => (*$2); %1 => call "oak_visualize::tree::TreeRenderer::find_node_label"($0, $1, $2)@Some.0}

fn oak_visualize::tree::TreeRenderer::new
case
  ret new "oak_visualize::tree::TreeRenderer"{config: new "oak_visualize::tree::TreeRenderConfig"{node_fill_color: "#ffffff", node_stroke_color: "#000000", node_stroke_width: const('float', '3ff0000000000000'), edge_color: "#666666", edge_width: const('float', '3ff0000000000000'), text_color: "#000000", font_family: "Arial, sans-serif", font_size: const('float', '4028000000000000')}}

fn oak_visualize::tree::TreeRenderer::with_config
case
  ret ($0 with {config: $1})

fn oak_visualize::tree::next_node_id  [private]
  takes nothing
case
  do call "core::sync::atomic::Atomic::fetch_add"(const('static', 'oak_visualize::tree::NODE_ID_COUNTER'), 1, new "core::sync::atomic::Ordering"{})
  ret cat(<"node_", display('d', call "core::sync::atomic::Atomic::fetch_add"(const('static', 'oak_visualize::tree::NODE_ID_COUNTER'), 1, new "core::sync::atomic::Ordering"{}))>)
