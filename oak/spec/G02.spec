fn <oak_visualize::graph::Graph as oak_visualize::Visualize>::visualize
  given oak_visualize::graph::GraphLayout::new
  given oak_visualize::graph::GraphLayout::visualize
case
  do call "oak_visualize::graph::GraphLayout::new"()
  do call "oak_visualize::graph::GraphLayout::visualize"(rv(call "oak_visualize::graph::GraphLayout::new"()), $0)
  ret call "oak_visualize::graph::GraphLayout::visualize"(rv(call "oak_visualize::graph::GraphLayout::new"()), $0)

fn <oak_visualize::graph::GraphLayout as core::default::Default>::default
case
  ret new "oak_visualize::graph::GraphLayout"{algorithm: new "oak_visualize::graph::GraphLayoutAlgorithm" ForceDirected{}, config: new "oak_visualize::graph::GraphLayoutConfig"{node_width: const('float', '4054000000000000'), node_height: const('float', '4044000000000000'), node_spacing: const('float', '4034000000000000'), layer_distance: const('float', '4059000000000000'), circle_radius: const('float', '4069000000000000'), iterations: 100, spring_strength: const('float', '3fb999999999999a'), repulsion_strength: const('float', '408f400000000000'), damping: const('float', '3feccccccccccccd'), max_velocity: const('float', '4024000000000000'), ideal_edge_length: const('float', '4059000000000000')}}

fn <oak_visualize::graph::GraphLayoutConfig as core::default::Default>::default
case
  ret new "oak_visualize::graph::GraphLayoutConfig"{node_width: const('float', '4054000000000000'), node_height: const('float', '4044000000000000'), node_spacing: const('float', '4034000000000000'), layer_distance: const('float', '4059000000000000'), circle_radius: const('float', '4069000000000000'), iterations: 100, spring_strength: const('float', '3fb999999999999a'), repulsion_strength: const('float', '408f400000000000'), damping: const('float', '3feccccccccccccd'), max_velocity: const('float', '4024000000000000'), ideal_edge_length: const('float', '4059000000000000')}

fn oak_visualize::graph::Graph::add_edge
case
  set $0 := ((*$0) with {edges: vpush((*$0).edges, $1)})
  ret tup{}

fn oak_visualize::graph::Graph::add_node
case
  set $0 := ((*$0) with {nodes: hins((*$0).nodes, $1.id, $1)})
  ret tup{}

fn oak_visualize::graph::Graph::dfs_cycles  [private]
  takes &oak_visualize::graph::Graph; &str; &mut std::collections::hash::set::HashSet<alloc::string::String>; &mut std::collections::hash::set::HashSet<alloc::string::String>; &mut alloc::vec::Vec<alloc::string::String>; &mut alloc::vec::Vec<alloc::vec::Vec<alloc::string::String>>
  given oak_visualize::graph::Graph::get_neighbors
  let %1 = (n("L0") < len(call "oak_visualize::graph::Graph::get_neighbors"($0, $1)))
  let %2 = call "oak_visualize::graph::Graph::get_neighbors"($0, $1)[n("L0")]
  let %3 = call "oak_visualize::graph::Graph::dfs_cycles"($0, %2, rv(lv("L0", "v3")), rv(lv("L0", "v0")), rv(lv("L0", "v1")), rv(lv("L0", "v2")))
case
  if not %1
  if (len(lv("L0", "v1")) == 0)
  loop L0 | v0 from hins((*$3), (*$1), tup{}) | v1 from vpush((*$4), (*$1)) | v2 from (*$5) | v3 from hins((*$2), (*$1), tup{})
  do call "oak_visualize::graph::Graph::get_neighbors"($0, $1)
  set $2 := lv("L0", "v3")
  set $3 := hdel(lv("L0", "v0"), $1)
  set $4 := lv("L0", "v1")
  set $5 := lv("L0", "v2")
  ret tup{}
pass L0
  if %1
  if (hget(lv("L0", "v3"), %2) is Some)
  if (hget(lv("L0", "v0"), %2) is Some)
  if (n("C0") < len(lv("L0", "v1")))
  if (%2 === lv("L0", "v1")[n("C0")])
  loop L0 | v0 from hins((*$3), (*$1), tup{}) | v1 from vpush((*$4), (*$1)) | v2 from (*$5) | v3 from hins((*$2), (*$1), tup{})
  loop C0
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := vpush(lv("L0", "v2"), slice(lv("L0", "v1"), n("C0"), len(lv("L0", "v1"))))
  then v3 := lv("L0", "v3")
pass L0
  if %1
  if (hget(lv("L0", "v3"), %2) is Some)
  if (hget(lv("L0", "v0"), %2) is Some)
  if not (n("C0") < len(lv("L0", "v1")))
  loop L0 | v0 from hins((*$3), (*$1), tup{}) | v1 from vpush((*$4), (*$1)) | v2 from (*$5) | v3 from hins((*$2), (*$1), tup{})
  loop C0
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
pass L0
  if %1
  if (hget(lv("L0", "v3"), %2) is Some)
  if not (hget(lv("L0", "v0"), %2) is Some)
  loop L0 | v0 from hins((*$3), (*$1), tup{}) | v1 from vpush((*$4), (*$1)) | v2 from (*$5) | v3 from hins((*$2), (*$1), tup{})
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
pass L0
  if %1
  if not (hget(lv("L0", "v3"), %2) is Some)
  loop L0 | v0 from hins((*$3), (*$1), tup{}) | v1 from vpush((*$4), (*$1)) | v2 from (*$5) | v3 from hins((*$2), (*$1), tup{})
  do %3
  then v0 := post(3, %3)
  then v1 := post(4, %3)
  then v2 := post(5, %3)
  then v3 := post(2, %3)
case
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  loop L0 | v0 from hins((*$3), (*$1), tup{}) | v1 from vpush((*$4), (*$1)) | v2 from (*$5) | v3 from hins((*$2), (*$1), tup{})
  do call "oak_visualize::graph::Graph::get_neighbors"($0, $1)
  set $2 := lv("L0", "v3")
  set $3 := hdel(lv("L0", "v0"), $1)
  set $4 := vpop(lv("L0", "v1"))
  set $5 := lv("L0", "v2")
  ret tup{}

fn oak_visualize::graph::Graph::find_cycles
  given oak_visualize::graph::Graph::dfs_cycles
  let %1 = (hget(lv("L0", "v1"), call "HashMap::keys"((*$0).nodes)[n("L0")]) is Some)
  let %2 = call "oak_visualize::graph::Graph::dfs_cycles"($0, call "HashMap::keys"((*$0).nodes)[n("L0")], rv(lv("L0", "v1")), rv(lv("L0", "v0")), rv(lv("L0", "v3")), rv(lv("L0", "v2")))
case
  if (len(call "HashMap::keys"((*$0).nodes)) < n("L0") + 1)
  loop L0 | v0 from hnew() | v1 from hnew() | v2 from vnew() | v3 from vnew()
  ret lv("L0", "v2")
pass L0
  if not (len(call "HashMap::keys"((*$0).nodes)) < n("L0") + 1)
  if %1
  loop L0 | v0 from hnew() | v1 from hnew() | v2 from vnew() | v3 from vnew()
  then v0 := lv("L0", "v0")
  then v1 := lv("L0", "v1")
  then v2 := lv("L0", "v2")
  then v3 := lv("L0", "v3")
pass L0
  if not (len(call "HashMap::keys"((*$0).nodes)) < n("L0") + 1)
  if not %1
  loop L0 | v0 from hnew() | v1 from hnew() | v2 from vnew() | v3 from vnew()
  do %2
  then v0 := post(3, %2)
  then v1 := post(2, %2)
  then v2 := post(5, %2)
  then v3 := post(4, %2)

fn oak_visualize::graph::Graph::get_degree
  given oak_visualize::graph::Graph::get_neighbors
case
  do call "oak_visualize::graph::Graph::get_neighbors"($0, $1)
  ret len(call "oak_visualize::graph::Graph::get_neighbors"($0, $1))

fn oak_visualize::graph::Graph::get_neighbors
case
  if (len((*$0).edges) < n("L0") + 1)
  loop L0 | v0 from vnew()
  ret lv("L0", "v0")
pass L0
  if not (len((*$0).edges) < n("L0") + 1)
  if ($1 === (*$0).edges[n("L0")].from)
  if true((*$0).directed)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), rv((*$0).edges[n("L0")].to))
pass L0
  if not (len((*$0).edges) < n("L0") + 1)
  if ($1 === (*$0).edges[n("L0")].from)
  if not true((*$0).directed)
  if ($1 === (*$0).edges[n("L0")].to)
  loop L0 | v0 from vnew()
  then v0 := vpush(vpush(lv("L0", "v0"), rv((*$0).edges[n("L0")].to)), rv((*$0).edges[n("L0")].from))
pass L0
  if not (len((*$0).edges) < n("L0") + 1)
  if ($1 === (*$0).edges[n("L0")].from)
  if not true((*$0).directed)
  if not ($1 === (*$0).edges[n("L0")].to)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), rv((*$0).edges[n("L0")].to))
pass L0
  if not (len((*$0).edges) < n("L0") + 1)
  if not ($1 === (*$0).edges[n("L0")].from)
  if true((*$0).directed)
  loop L0 | v0 from vnew()
  then v0 := lv("L0", "v0")
pass L0
  if not (len((*$0).edges) < n("L0") + 1)
  if not ($1 === (*$0).edges[n("L0")].from)
  if not true((*$0).directed)
  if ($1 === (*$0).edges[n("L0")].to)
  loop L0 | v0 from vnew()
  then v0 := vpush(lv("L0", "v0"), rv((*$0).edges[n("L0")].from))
pass L0
  if not (len((*$0).edges) < n("L0") + 1)
  if not ($1 === (*$0).edges[n("L0")].from)
  if not true((*$0).directed)
  if not ($1 === (*$0).edges[n("L0")].to)
  loop L0 | v0 from vnew()
  then v0 := lv("L0", "v0")

fn oak_visualize::graph::Graph::is_connected
  given oak_visualize::graph::Graph::get_neighbors
  let %1 = (hget(lv("L0", "v0"), lv("L0", "v1")[(len(lv("L0", "v1")) - 1)]) is Some)
  let %2 = call "oak_visualize::graph::Graph::get_neighbors"($0, lv("L0", "v1")[(len(lv("L0", "v1")) - 1)])
  let %3 = hins(lv("L0", "v0"), lv("L0", "v1")[(len(lv("L0", "v1")) - 1)], tup{})
case
  if (len((*$0).nodes) == 0)
  ret 1
case
  if not (len((*$0).nodes) == 0)
  if (len(call "HashMap::keys"((*$0).nodes)) < 1)
  panics
case
  if not (len((*$0).nodes) == 0)
  if not (len(call "HashMap::keys"((*$0).nodes)) < 1)
  if (len(lv("L0", "v1")) == 0)
  loop L0 | v0 from hnew() | v1 from vpush(vnew(), call "HashMap::keys"((*$0).nodes)[0])
  ret (len((*$0).nodes) == len(lv("L0", "v0")))
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if %1
  loop L0 | v0 from hnew() | v1 from vpush(vnew(), call "HashMap::keys"((*$0).nodes)[0])
  then v0 := lv("L0", "v0")
  then v1 := vpop(lv("L0", "v1"))
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if not %1
  if not (n("L1") < len(%2))
  loop L0 | v0 from hnew() | v1 from vpush(vnew(), call "HashMap::keys"((*$0).nodes)[0])
  loop L1 | v0 from vpop(lv("L0", "v1"))
  do %2
  then v0 := %3
  then v1 := lv("L1", "v0")
pass L1
  if (n("L1") < len(%2))
  if (hget(%3, %2[n("L1")]) is Some)
  loop L0 | v0 from hnew() | v1 from vpush(vnew(), call "HashMap::keys"((*$0).nodes)[0])
  loop L1 | v0 from vpop(lv("L0", "v1"))
  then v0 := lv("L1", "v0")
pass L1
  if (n("L1") < len(%2))
  if not (hget(%3, %2[n("L1")]) is Some)
  loop L0 | v0 from hnew() | v1 from vpush(vnew(), call "HashMap::keys"((*$0).nodes)[0])
  loop L1 | v0 from vpop(lv("L0", "v1"))
  then v0 := vpush(lv("L1", "v0"), %2[n("L1")])

fn oak_visualize::graph::Graph::new
case
  ret new "oak_visualize::graph::Graph"{nodes: hnew(), edges: vnew(), directed: $0}

fn oak_visualize::graph::GraphEdge::new
case
  ret new "oak_visualize::graph::GraphEdge"{from: $0, to: $1, label: new "core::option::Option" None{}, edge_type: "default", weight: const('float', '3ff0000000000000'), directed: 1, attributes: hnew()}

fn oak_visualize::graph::GraphEdge::undirected
case
  ret ($0 with {directed: 0})

fn oak_visualize::graph::GraphEdge::with_attribute
case
  ret ($0 with {attributes: hins($0.attributes, $1, $2)})

fn oak_visualize::graph::GraphEdge::with_label
case
  ret ($0 with {label: new "core::option::Option" Some{0: $1}})

fn oak_visualize::graph::GraphEdge::with_type
case
  ret ($0 with {edge_type: $1})

fn oak_visualize::graph::GraphEdge::with_weight
case
  ret ($0 with {weight: $1})

fn oak_visualize::graph::GraphLayout::circular
case
  ret new "oak_visualize::graph::GraphLayout"{algorithm: new "oak_visualize::graph::GraphLayoutAlgorithm" Circular{}, config: new "oak_visualize::graph::GraphLayoutConfig"{node_width: const('float', '4054000000000000'), node_height: const('float', '4044000000000000'), node_spacing: const('float', '4034000000000000'), layer_distance: const('float', '4059000000000000'), circle_radius: const('float', '4069000000000000'), iterations: 100, spring_strength: const('float', '3fb999999999999a'), repulsion_strength: const('float', '408f400000000000'), damping: const('float', '3feccccccccccccd'), max_velocity: const('float', '4024000000000000'), ideal_edge_length: const('float', '4059000000000000')}}

fn oak_visualize::graph::GraphLayout::circular_layout  [private]
  takes &oak_visualize::graph::GraphLayout; &oak_visualize::graph::Graph
  given oak_visualize::layout::Layout::add_node_with_metadata
  let %1 = new "oak_visualize::layout::Layout"{bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: hnew(), edges: vnew()}
  let %2 = ((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).size is Some)
  let %3 = ("function" === (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).node_type)
  let %4 = op('fMul', op('fDiv', op('fMul', const('float', '4000000000000000'), const('float', '400921fb54442d18')), op('cast:IntToFloat', len((*$1).nodes))), op('cast:IntToFloat', n("L0")))
  let %5 = new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: op('fSub', op('fMul', (*$0).config.circle_radius, call "f64::cos"(%4)), op('fDiv', (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).size@Some.0.width, const('float', '4000000000000000'))), y: op('fSub', op('fMul', (*$0).config.circle_radius, call "f64::sin"(%4)), op('fDiv', (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).size@Some.0.height, const('float', '4000000000000000')))}, size: (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).size@Some.0}
  let %6 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %5, new "oak_visualize::layout::NodeType" Function{})
  let %7 = ("struct" === (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).node_type)
  let %8 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %5, new "oak_visualize::layout::NodeType" Struct{})
  let %9 = ("module" === (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).node_type)
  let %10 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %5, new "oak_visualize::layout::NodeType" Module{})
  let %11 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %5, new "oak_visualize::layout::NodeType" Default{})
  let %12 = new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: op('fSub', op('fMul', (*$0).config.circle_radius, call "f64::cos"(%4)), op('fDiv', (*$0).config.node_width, const('float', '4000000000000000'))), y: op('fSub', op('fMul', (*$0).config.circle_radius, call "f64::sin"(%4)), op('fDiv', (*$0).config.node_height, const('float', '4000000000000000')))}, size: new "oak_visualize::geometry::Size"{width: (*$0).config.node_width, height: (*$0).config.node_height}}
  let %13 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %12, new "oak_visualize::layout::NodeType" Function{})
  let %14 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %12, new "oak_visualize::layout::NodeType" Struct{})
  let %15 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %12, new "oak_visualize::layout::NodeType" Module{})
  let %16 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %12, new "oak_visualize::layout::NodeType" Default{})
  let %17 = (hget(lv("L0", "v0").nodes, (*$1).edges[n("L1")].from) is Some)
  let %18 = (hget(lv("L0", "v0").nodes, (*$1).edges[n("L1")].to) is Some)
  let %19 = hget(lv("L0", "v0").nodes, (*$1).edges[n("L1")].from)@Some.0.rect
  let %20 = hget(lv("L0", "v0").nodes, (*$1).edges[n("L1")].to)@Some.0.rect
case
  if (len((*$1).nodes) == 0)
  ret new "core::result::Result" Ok{0: %1}
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not (n("L1") < len((*$1).edges))
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  ret new "core::result::Result" Ok{0: (lv("L0", "v0") with {edges: lv("L1", "v0")})}
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if %2
  if %3
  loop L0 | v0 from %1
  do call "f64::cos"(%4)
  do call "f64::sin"(%4)
  do %6
  then v0 := post(0, %6)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if %2
  if not %3
  if %7
  loop L0 | v0 from %1
  do call "f64::cos"(%4)
  do call "f64::sin"(%4)
  do %8
  then v0 := post(0, %8)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if %2
  if not %3
  if not %7
  if %9
  loop L0 | v0 from %1
  do call "f64::cos"(%4)
  do call "f64::sin"(%4)
  do %10
  then v0 := post(0, %10)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if %2
  if not %3
  if not %7
  if not %9
  loop L0 | v0 from %1
  do call "f64::cos"(%4)
  do call "f64::sin"(%4)
  do %11
  then v0 := post(0, %11)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not %2
  if %3
  loop L0 | v0 from %1
  do call "f64::cos"(%4)
  do call "f64::sin"(%4)
  do %13
  then v0 := post(0, %13)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not %2
  if not %3
  if %7
  loop L0 | v0 from %1
  do call "f64::cos"(%4)
  do call "f64::sin"(%4)
  do %14
  then v0 := post(0, %14)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not %2
  if not %3
  if not %7
  if %9
  loop L0 | v0 from %1
  do call "f64::cos"(%4)
  do call "f64::sin"(%4)
  do %15
  then v0 := post(0, %15)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not %2
  if not %3
  if not %7
  if not %9
  loop L0 | v0 from %1
  do call "f64::cos"(%4)
  do call "f64::sin"(%4)
  do %16
  then v0 := post(0, %16)
pass L1
  if (n("L1") < len((*$1).edges))
  if %17
  if %18
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  then v0 := vpush(lv("L1", "v0"), new "oak_visualize::layout::Edge"{from: (*$1).edges[n("L1")].from, to: (*$1).edges[n("L1")].to, points: vpush(vpush(vnew(), new "oak_visualize::geometry::Point"{x: op('fAdd', %19.origin.x, op('fDiv', %19.size.width, const('float', '4000000000000000'))), y: op('fAdd', %19.origin.y, op('fDiv', %19.size.height, const('float', '4000000000000000')))}), new "oak_visualize::geometry::Point"{x: op('fAdd', %20.origin.x, op('fDiv', %20.size.width, const('float', '4000000000000000'))), y: op('fAdd', %20.origin.y, op('fDiv', %20.size.height, const('float', '4000000000000000')))}), label: new "core::option::Option" None{}})
pass L1
  if (n("L1") < len((*$1).edges))
  if %17
  if not %18
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  then v0 := lv("L1", "v0")
pass L1
  if (n("L1") < len((*$1).edges))
  if not %17
  if %18
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  then v0 := lv("L1", "v0")
pass L1
  if (n("L1") < len((*$1).edges))
  if not %17
  if not %18
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  then v0 := lv("L1", "v0")

fn oak_visualize::graph::GraphLayout::force_directed
case
  ret new "oak_visualize::graph::GraphLayout"{algorithm: new "oak_visualize::graph::GraphLayoutAlgorithm" ForceDirected{}, config: new "oak_visualize::graph::GraphLayoutConfig"{node_width: const('float', '4054000000000000'), node_height: const('float', '4044000000000000'), node_spacing: const('float', '4034000000000000'), layer_distance: const('float', '4059000000000000'), circle_radius: const('float', '4069000000000000'), iterations: 100, spring_strength: const('float', '3fb999999999999a'), repulsion_strength: const('float', '408f400000000000'), damping: const('float', '3feccccccccccccd'), max_velocity: const('float', '4024000000000000'), ideal_edge_length: const('float', '4059000000000000')}}

fn oak_visualize::graph::GraphLayout::force_directed_layout  [private]
  takes &oak_visualize::graph::GraphLayout; &oak_visualize::graph::Graph
  given <oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add
  given <oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub
  given oak_visualize::geometry::Point::distance_to
  given oak_visualize::geometry::Point::new
  given oak_visualize::geometry::Point::origin
  given oak_visualize::geometry::Rect::center
  given oak_visualize::geometry::Rect::new
  given oak_visualize::geometry::Size::new
  given oak_visualize::layout::Edge::new
  given oak_visualize::layout::Edge::with_points
  given oak_visualize::layout::Layout::add_edge
  given oak_visualize::layout::Layout::add_node_with_metadata
  given oak_visualize::layout::Layout::new
  let %1 = op('fDiv', op('fMul', op('fMul', const('float', '4000000000000000'), const('float', '400921fb54442d18')), op('cast:IntToFloat', n("L0"))), op('cast:IntToFloat', len((*$1).nodes)))
  let %2 = call "oak_visualize::geometry::Point::new"(op('fMul', const('float', '4059000000000000'), call "f64::cos"(%1)), op('fMul', const('float', '4059000000000000'), call "f64::sin"(%1)))
  let %3 = call "oak_visualize::geometry::Point::distance_to"(rv(hget(lv("L1", "v0"), (*$1).edges[n("L3")].from)@Some.0), rv(hget(lv("L1", "v0"), (*$1).edges[n("L3")].to)@Some.0))
  let %4 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(hget(lv("L1", "v0"), (*$1).edges[n("L3")].to)@Some.0, hget(lv("L1", "v0"), (*$1).edges[n("L3")].from)@Some.0)
  let %5 = call "oak_visualize::geometry::Point::new"(op('fDiv', %4.x, %3), op('fDiv', %4.y, %3))
  let %6 = op('fMul', (*$1).edges[n("L3")].weight, op('fMul', (*$0).config.spring_strength, op('fSub', %3, (*$0).config.ideal_edge_length)))
  let %7 = call "oak_visualize::geometry::Point::new"(op('fMul', %5.x, %6), op('fMul', %6, %5.y))
  let %8 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(hget(lv("L3", "v0"), (*$1).edges[n("L3")].from)@Some.0, %7)
  let %9 = hget(hins(lv("L3", "v0"), (*$1).edges[n("L3")].from, %8), (*$1).edges[n("L3")].to)
  let %10 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%9@Some.0, %7)
  let %11 = hget(lv("L3", "v0"), call "HashMap::keys"((*$1).nodes)[n("L4")])
  let %12 = hget(lv("L4", "v1"), call "HashMap::keys"((*$1).nodes)[n("L4")])
  let %13 = hget(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L4")])
  let %14 = call "oak_visualize::geometry::Point::new"(op('fAdd', op('fMul', (*$0).config.damping, %12@Some.0.x), %11@Some.0.x), op('fAdd', op('fMul', (*$0).config.damping, %12@Some.0.y), %11@Some.0.y))
  let %15 = call "f64::sqrt"(op('fAdd', op('fMul', %14.x, %14.x), op('fMul', %14.y, %14.y)))
  let %16 = (%14 with {x: op('fMul', %14.x, op('fDiv', (*$0).config.max_velocity, %15)), y: op('fMul', %14.y, op('fDiv', (*$0).config.max_velocity, %15))})
  let %17 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(%13@Some.0, %16)
  let %18 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(%13@Some.0, %14)
  let %19 = hget(lv("L1", "v0"), call "HashMap::iter"((*$1).nodes)[n("L2")].0)
  let %20 = ("function" === (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).node_type)
  let %21 = call "oak_visualize::geometry::Size::new"((*$0).config.node_width, (*$0).config.node_height)
  let %22 = ((*call "HashMap::iter"((*$1).nodes)[n("L2")].1).size is Some)
  let %23 = call "oak_visualize::geometry::Point::new"(op('fSub', %19@Some.0.x, op('fDiv', case{!%22 => %21.width; %22 => (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).size@Some.0.width}, const('float', '4000000000000000'))), op('fSub', %19@Some.0.y, op('fDiv', case{!%22 => %21.height; %22 => (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).size@Some.0.height}, const('float', '4000000000000000'))))
  let %24 = call "oak_visualize::geometry::Rect::new"(%23, case{!%22 => %21; %22 => (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).size@Some.0})
  let %25 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L2")].0), (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).label, %24, new "oak_visualize::layout::NodeType" Function{})
  let %26 = ("struct" === (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).node_type)
  let %27 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L2")].0), (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).label, %24, new "oak_visualize::layout::NodeType" Struct{})
  let %28 = ("module" === (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).node_type)
  let %29 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L2")].0), (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).label, %24, new "oak_visualize::layout::NodeType" Module{})
  let %30 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L2")].0), (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).label, %24, new "oak_visualize::layout::NodeType" Default{})
  let %31 = (hget(lv("L3", "v0").nodes, (*$1).edges[n("L3")].from) is Some)
  let %32 = (hget(lv("L3", "v0").nodes, (*$1).edges[n("L3")].to) is Some)
  let %33 = call "oak_visualize::layout::Edge::new"((*$1).edges[n("L3")].from, (*$1).edges[n("L3")].to)
  let %34 = call "oak_visualize::geometry::Rect::center"(rv(hget(lv("L3", "v0").nodes, (*$1).edges[n("L3")].from)@Some.0.rect))
  let %35 = call "oak_visualize::geometry::Rect::center"(rv(hget(lv("L3", "v0").nodes, (*$1).edges[n("L3")].to)@Some.0.rect))
  let %36 = call "oak_visualize::layout::Edge::with_points"(%33, vpush(vpush(vnew(), %34), %35))
  let %37 = call "oak_visualize::layout::Layout::add_edge"(rv(lv("L3", "v0")), %36)
  let %38 = call "oak_visualize::geometry::Point::distance_to"(rv(hget(lv("L1", "v0"), (*$1).edges[n("L4")].from)@Some.0), rv(hget(lv("L1", "v0"), (*$1).edges[n("L4")].to)@Some.0))
  let %39 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(hget(lv("L1", "v0"), (*$1).edges[n("L4")].to)@Some.0, hget(lv("L1", "v0"), (*$1).edges[n("L4")].from)@Some.0)
  let %40 = call "oak_visualize::geometry::Point::new"(op('fDiv', %39.x, %38), op('fDiv', %39.y, %38))
  let %41 = op('fMul', (*$1).edges[n("L4")].weight, op('fMul', (*$0).config.spring_strength, op('fSub', %38, (*$0).config.ideal_edge_length)))
  let %42 = call "oak_visualize::geometry::Point::new"(op('fMul', %40.x, %41), op('fMul', %41, %40.y))
  let %43 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(hget(lv("L4", "v0"), (*$1).edges[n("L4")].from)@Some.0, %42)
  let %44 = hget(hins(lv("L4", "v0"), (*$1).edges[n("L4")].from, %43), (*$1).edges[n("L4")].to)
  let %45 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%44@Some.0, %42)
  let %46 = (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + n("L4") + 2)
  let %47 = hget(lv("L1", "v0"), call "HashMap::keys"((*$1).nodes)[n("L3")])
  let %48 = hget(lv("L1", "v0"), call "HashMap::keys"((*$1).nodes)[(n("L3") + n("L4") + 1)])
  let %49 = hget(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L3")])
  let %50 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%47@Some.0, %48@Some.0)
  let %51 = call "oak_visualize::geometry::Point::distance_to"(rv(%47@Some.0), rv(%48@Some.0))
  let %52 = call "oak_visualize::geometry::Point::new"(op('fDiv', %50.x, call "f64::max"(%51, const('float', '3ff0000000000000'))), op('fDiv', %50.y, call "f64::max"(%51, const('float', '3ff0000000000000'))))
  let %53 = op('fDiv', (*$0).config.repulsion_strength, op('fMul', call "f64::max"(%51, const('float', '3ff0000000000000')), call "f64::max"(%51, const('float', '3ff0000000000000'))))
  let %54 = call "oak_visualize::geometry::Point::new"(op('fMul', %52.x, %53), op('fMul', %53, %52.y))
  let %55 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(%49@Some.0, %54)
  let %56 = hins(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L3")], %55)
  let %57 = hget(%56, call "HashMap::keys"((*$1).nodes)[(n("L3") + n("L4") + 1)])
  let %58 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%57@Some.0, %54)
case
  if (len((*$1).nodes) == 0)
  do call "oak_visualize::layout::Layout::new"()
  ret new "core::result::Result" Ok{0: call "oak_visualize::layout::Layout::new"()}
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if not (n("L1") < (*$0).config.iterations)
  if not (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (len((*$1).edges) < n("L3") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do call "oak_visualize::layout::Layout::new"()
  ret new "core::result::Result" Ok{0: lv("L3", "v0")}
pass L0
  if (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  loop L0 | v0 from hnew() | v1 from hnew()
  do call "f64::cos"(%1)
  do call "f64::sin"(%1)
  do %2
  do call "oak_visualize::geometry::Point::origin"()
  then v0 := hins(lv("L0", "v0"), (*call "HashMap::keys"((*$1).nodes)[n("L0")]), %2)
  then v1 := hins(lv("L0", "v1"), (*call "HashMap::keys"((*$1).nodes)[n("L0")]), call "oak_visualize::geometry::Point::origin"())
pass L1
  if (n("L1") < (*$0).config.iterations)
  if (len(call "HashMap::keys"((*$1).nodes)) < n("GraphLayout::force_directed_layout#2") + 1)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if (len((*$1).edges) < n("L3") + 1)
  if (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L2
  if (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if not (n("GraphLayout::force_directed_layout#4") + n("L2") + 1 < len(call "HashMap::keys"((*$1).nodes)))
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  then v0 := lv("GraphLayout::force_directed_layout#4", "forces")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L3")].from) is Some)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L3")].to) is Some)
  if ltr(const('float', '0'), %3)
  if (hget(lv("L3", "v0"), (*$1).edges[n("L3")].from) is Some)
  if (%9 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  do %4
  do %3
  do %5
  do %7
  do %8
  do %10
  then v0 := hins(hins(lv("L3", "v0"), (*$1).edges[n("L3")].from, %8), (*$1).edges[n("L3")].to, %10)
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L3")].from) is Some)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L3")].to) is Some)
  if not ltr(const('float', '0'), %3)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  do %4
  do %3
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L3")].from) is Some)
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L3")].from) is Some)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L3")].from) is Some)
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%11 is Some)
  if (%12 is Some)
  if (%13 is Some)
  if ltr((*$0).config.max_velocity, %15)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  do %14
  do %15
  do %17
  then v0 := hins(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L4")], %17)
  then v1 := hins(lv("L4", "v1"), call "HashMap::keys"((*$1).nodes)[n("L4")], %16)
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%11 is Some)
  if (%12 is Some)
  if (%13 is Some)
  if not ltr((*$0).config.max_velocity, %15)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  do %14
  do %15
  do %18
  then v0 := hins(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L4")], %18)
  then v1 := hins(lv("L4", "v1"), call "HashMap::keys"((*$1).nodes)[n("L4")], %14)
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%11 is Some)
  if (%12 is Some)
  if not (%13 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%11 is Some)
  if not (%12 is Some)
  if (%13 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%11 is Some)
  if not (%12 is Some)
  if not (%13 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if not (%11 is Some)
  if (%12 is Some)
  if (%13 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if not (%11 is Some)
  if (%12 is Some)
  if not (%13 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if not (%11 is Some)
  if not (%12 is Some)
  if (%13 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if not (%11 is Some)
  if not (%12 is Some)
  if not (%13 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (%19 is Some)
  if %20
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %21
  do %23
  do %24
  do %25
  then v0 := post(0, %25)
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (%19 is Some)
  if not %20
  if %26
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %21
  do %23
  do %24
  do %27
  then v0 := post(0, %27)
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (%19 is Some)
  if not %20
  if not %26
  if %28
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %21
  do %23
  do %24
  do %29
  then v0 := post(0, %29)
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (%19 is Some)
  if not %20
  if not %26
  if not %28
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %21
  do %23
  do %24
  do %30
  then v0 := post(0, %30)
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if not (%19 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  then v0 := lv("L2", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if %31
  if %32
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do %33
  do %34
  do %35
  do %36
  do %37
  then v0 := post(0, %37)
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if %31
  if not %32
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if not %31
  if %32
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if not %31
  if not %32
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < (*$0).config.iterations)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].to) is Some)
  if ltr(const('float', '0'), %38)
  if (hget(lv("L4", "v0"), (*$1).edges[n("L4")].from) is Some)
  if not (%44 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  panics
pass L2
  if (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  do call "oak_visualize::geometry::Point::origin"()
  then v0 := hins(lv("L2", "v0"), (*call "HashMap::keys"((*$1).nodes)[n("L2")]), call "oak_visualize::geometry::Point::origin"())
pass L3
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if (len(call "HashMap::keys"((*$1).nodes)) < n("GraphLayout::force_directed_layout#4") + n("L3") + 2)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("GraphLayout::force_directed_layout#4", "forces")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].to) is Some)
  if ltr(const('float', '0'), %38)
  if (hget(lv("L4", "v0"), (*$1).edges[n("L4")].from) is Some)
  if (%44 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  do %39
  do %38
  do %40
  do %42
  do %43
  do %45
  then v0 := hins(hins(lv("L4", "v0"), (*$1).edges[n("L4")].from, %43), (*$1).edges[n("L4")].to, %45)
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].to) is Some)
  if not ltr(const('float', '0'), %38)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  do %39
  do %38
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].from) is Some)
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L4")].from) is Some)
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < (*$0).config.iterations)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v0"), (*$1).edges[n("L4")].to) is Some)
  if ltr(const('float', '0'), %38)
  if not (hget(lv("L4", "v0"), (*$1).edges[n("L4")].from) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  panics
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < (*$0).config.iterations)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if not %46
  if (%47 is Some)
  if (%48 is Some)
  if (%49 is Some)
  if not (%57 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  panics
pass L4
  if not %46
  if (%47 is Some)
  if (%48 is Some)
  if (%49 is Some)
  if (%57 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  do %50
  do %51
  do call "f64::max"(%51, const('float', '3ff0000000000000'))
  do %52
  do %54
  do %55
  do %58
  then v0 := hins(%56, call "HashMap::keys"((*$1).nodes)[(n("L3") + n("L4") + 1)], %58)
pass L4
  if not %46
  if (%47 is Some)
  if not (%48 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not %46
  if not (%47 is Some)
  if (%48 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not %46
  if not (%47 is Some)
  if not (%48 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < (*$0).config.iterations)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if not %46
  if (%47 is Some)
  if (%48 is Some)
  if not (%49 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v0") | v1 from lv("L0", "v1")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  panics

fn oak_visualize::graph::GraphLayout::grid_layout  [private]
  takes &oak_visualize::graph::GraphLayout; &oak_visualize::graph::Graph
  given oak_visualize::layout::Layout::add_node_with_metadata
  let %1 = new "oak_visualize::layout::Layout"{bounds: new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: const('float', '4059000000000000'), height: const('float', '4049000000000000')}}, nodes: hnew(), edges: vnew()}
  let %2 = call "f64::ceil"(call "f64::sqrt"(op('cast:IntToFloat', len((*$1).nodes))))
  let %3 = ((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).size is Some)
  let %4 = ("function" === (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).node_type)
  let %5 = new "oak_visualize::geometry::Point"{x: op('fMul', op('fAdd', (*$0).config.node_width, (*$0).config.node_spacing), op('cast:IntToFloat', op('Rem', n("L0"), op('cast:FloatToInt', %2)))), y: op('fMul', op('fAdd', (*$0).config.node_spacing, (*$0).config.node_height), op('cast:IntToFloat', op('Div', n("L0"), op('cast:FloatToInt', %2))))}
  let %6 = new "oak_visualize::geometry::Rect"{origin: %5, size: (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).size@Some.0}
  let %7 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %6, new "oak_visualize::layout::NodeType" Function{})
  let %8 = ("struct" === (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).node_type)
  let %9 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %6, new "oak_visualize::layout::NodeType" Struct{})
  let %10 = ("module" === (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).node_type)
  let %11 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %6, new "oak_visualize::layout::NodeType" Module{})
  let %12 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %6, new "oak_visualize::layout::NodeType" Default{})
  let %13 = new "oak_visualize::geometry::Rect"{origin: %5, size: new "oak_visualize::geometry::Size"{width: (*$0).config.node_width, height: (*$0).config.node_height}}
  let %14 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %13, new "oak_visualize::layout::NodeType" Function{})
  let %15 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %13, new "oak_visualize::layout::NodeType" Struct{})
  let %16 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %13, new "oak_visualize::layout::NodeType" Module{})
  let %17 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L0", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), (*call "HashMap::iter"((*$1).nodes)[n("L0")].1).label, %13, new "oak_visualize::layout::NodeType" Default{})
  let %18 = (hget(lv("L0", "v0").nodes, (*$1).edges[n("L1")].from) is Some)
  let %19 = (hget(lv("L0", "v0").nodes, (*$1).edges[n("L1")].to) is Some)
  let %20 = hget(lv("L0", "v0").nodes, (*$1).edges[n("L1")].from)@Some.0.rect
  let %21 = hget(lv("L0", "v0").nodes, (*$1).edges[n("L1")].to)@Some.0.rect
case
  if (len((*$1).nodes) == 0)
  ret new "core::result::Result" Ok{0: %1}
case
  if not (len((*$1).nodes) == 0)
  if (op('cast:FloatToInt', %2) == 0)
  panics
case
  if not (len((*$1).nodes) == 0)
  if not (op('cast:FloatToInt', %2) == 0)
  if not (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not (n("L1") < len((*$1).edges))
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  do call "f64::sqrt"(op('cast:IntToFloat', len((*$1).nodes)))
  do %2
  ret new "core::result::Result" Ok{0: (lv("L0", "v0") with {edges: lv("L1", "v0")})}
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if %3
  if %4
  loop L0 | v0 from %1
  do %7
  then v0 := post(0, %7)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if %3
  if not %4
  if %8
  loop L0 | v0 from %1
  do %9
  then v0 := post(0, %9)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if %3
  if not %4
  if not %8
  if %10
  loop L0 | v0 from %1
  do %11
  then v0 := post(0, %11)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if %3
  if not %4
  if not %8
  if not %10
  loop L0 | v0 from %1
  do %12
  then v0 := post(0, %12)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not %3
  if %4
  loop L0 | v0 from %1
  do %14
  then v0 := post(0, %14)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not %3
  if not %4
  if %8
  loop L0 | v0 from %1
  do %15
  then v0 := post(0, %15)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not %3
  if not %4
  if not %8
  if %10
  loop L0 | v0 from %1
  do %16
  then v0 := post(0, %16)
pass L0
  if (n("L0") < len(call "HashMap::iter"((*$1).nodes)))
  if not %3
  if not %4
  if not %8
  if not %10
  loop L0 | v0 from %1
  do %17
  then v0 := post(0, %17)
pass L1
  if (n("L1") < len((*$1).edges))
  if %18
  if %19
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  then v0 := vpush(lv("L1", "v0"), new "oak_visualize::layout::Edge"{from: (*$1).edges[n("L1")].from, to: (*$1).edges[n("L1")].to, points: vpush(vpush(vnew(), new "oak_visualize::geometry::Point"{x: op('fAdd', %20.origin.x, op('fDiv', %20.size.width, const('float', '4000000000000000'))), y: op('fAdd', %20.origin.y, op('fDiv', %20.size.height, const('float', '4000000000000000')))}), new "oak_visualize::geometry::Point"{x: op('fAdd', %21.origin.x, op('fDiv', %21.size.width, const('float', '4000000000000000'))), y: op('fAdd', %21.origin.y, op('fDiv', %21.size.height, const('float', '4000000000000000')))}), label: new "core::option::Option" None{}})
pass L1
  if (n("L1") < len((*$1).edges))
  if %18
  if not %19
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  then v0 := lv("L1", "v0")
pass L1
  if (n("L1") < len((*$1).edges))
  if not %18
  if %19
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  then v0 := lv("L1", "v0")
pass L1
  if (n("L1") < len((*$1).edges))
  if not %18
  if not %19
  loop L0 | v0 from %1
  loop L1 | v0 from lv("L0", "v0").edges
  then v0 := lv("L1", "v0")

fn oak_visualize::graph::GraphLayout::hierarchical_layout  [private]
  takes &oak_visualize::graph::GraphLayout; &oak_visualize::graph::Graph
  given oak_visualize::geometry::Point::new
  given oak_visualize::geometry::Rect::center
  given oak_visualize::geometry::Rect::new
  given oak_visualize::geometry::Size::new
  given oak_visualize::layout::Edge::new
  given oak_visualize::layout::Edge::with_points
  given oak_visualize::layout::Layout::add_edge
  given oak_visualize::layout::Layout::add_node_with_metadata
  given oak_visualize::layout::Layout::new
  let %1 = (n("GraphLayout::topological_layers/collect") < len(call "HashMap::iter"(lv("L2", "v0"))))
  let %2 = call "core::iter::traits::iterator::Iterator::min_by_key"(new "it.own"{seq: call "HashMap::iter"(lv("L2", "v0")), pos: 0, end: len(call "HashMap::iter"(lv("L2", "v0")))}, clo('oak_visualize::graph::GraphLayout::topological_layers::{closure#2}', <>))
  let %3 = call "<std::collections::hash::map::HashMap as core::ops::index::Index<&Q>>::index"(rv((*$1).nodes), rv(lv("L2", "v1")[n("L3")][n("L4")]))
  let %4 = call "oak_visualize::geometry::Size::new"((*$0).config.node_width, (*$0).config.node_height)
  let %5 = op('fAdd', (*$0).config.node_width, (*$0).config.node_spacing)
  let %6 = call "oak_visualize::geometry::Point::new"(op('fAdd', op('fMul', %5, op('cast:IntToFloat', n("L4"))), op('fDiv', (-op('fMul', %5, op('cast:IntToFloat', len(lv("L2", "v1")[n("L3")])))), const('float', '4000000000000000'))), op('fMul', (*$0).config.layer_distance, op('cast:IntToFloat', n("L3"))))
  let %7 = call "oak_visualize::geometry::Rect::new"(%6, case{!((*%3).size is Some) => %4; ((*%3).size is Some) => (*%3).size@Some.0})
  let %8 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L4", "v0")), lv("L2", "v1")[n("L3")][n("L4")], (*%3).label, %7, new "oak_visualize::layout::NodeType" Function{})
  let %9 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L4", "v0")), lv("L2", "v1")[n("L3")][n("L4")], (*%3).label, %7, new "oak_visualize::layout::NodeType" Struct{})
  let %10 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L4", "v0")), lv("L2", "v1")[n("L3")][n("L4")], (*%3).label, %7, new "oak_visualize::layout::NodeType" Module{})
  let %11 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L4", "v0")), lv("L2", "v1")[n("L3")][n("L4")], (*%3).label, %7, new "oak_visualize::layout::NodeType" Default{})
  let %12 = (hget(lv("L4", "v0").nodes, (*$1).edges[n("L4")].from) is Some)
  let %13 = (hget(lv("L4", "v0").nodes, (*$1).edges[n("L4")].to) is Some)
  let %14 = call "oak_visualize::layout::Edge::new"((*$1).edges[n("L4")].from, (*$1).edges[n("L4")].to)
  let %15 = call "oak_visualize::geometry::Rect::center"(rv(hget(lv("L4", "v0").nodes, (*$1).edges[n("L4")].from)@Some.0.rect))
  let %16 = call "oak_visualize::geometry::Rect::center"(rv(hget(lv("L4", "v0").nodes, (*$1).edges[n("L4")].to)@Some.0.rect))
  let %17 = call "oak_visualize::layout::Edge::with_points"(%14, vpush(vpush(vnew(), %15), %16))
  let %18 = call "oak_visualize::layout::Layout::add_edge"(rv(lv("L4", "v0")), %17)
case
  if (len((*$1).nodes) == 0)
  do call "oak_visualize::layout::Layout::new"()
  ret new "core::result::Result" Ok{0: call "oak_visualize::layout::Layout::new"()}
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < len((*$1).edges))
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L1")].to) is Some)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  panics
pass L0
  if (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  loop L0 | v0 from hnew()
  then v0 := hins(lv("L0", "v0"), (*call "HashMap::keys"((*$1).nodes)[n("L0")]), 0)
pass L1
  if (n("L1") < len((*$1).edges))
  if (hget(lv("L1", "v0"), (*$1).edges[n("L1")].to) is Some)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  then v0 := hins(lv("L1", "v0"), (*$1).edges[n("L1")].to, (hget(lv("L1", "v0"), (*$1).edges[n("L1")].to)@Some.0 + 1))
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if not (n("L1") < len((*$1).edges))
  if (len(lv("L2", "v0")) == 0)
  if not (n("L3") < len(lv("L2", "v1")))
  if (len((*$1).edges) < n("L4") + 1)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @0 | v0 from lv("L3", "v0")
  do call "oak_visualize::layout::Layout::new"()
  ret new "core::result::Result" Ok{0: lv("L4", "v0")}
pass L2
  if not (len(lv("L2", "v0")) == 0)
  if not %1
  if (len(lv("GraphLayout::topological_layers/collect", "acc")) == 0)
  if (%2 is Some)
  if not (n("GraphLayout::topological_layers#3/1") < 1)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  do %2
  then v0 := lv("GraphLayout::topological_layers#3/1", "in_degree")
  then v1 := vpush(lv("L2", "v1"), vpush(vnew(), (*%2@Some.0.0)))
pass L2
  if not (len(lv("L2", "v0")) == 0)
  if not %1
  if (len(lv("GraphLayout::topological_layers/collect", "acc")) == 0)
  if not (%2 is Some)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  do %2
  then v0 := lv("L2", "v0")
  then v1 := vpush(lv("L2", "v1"), vnew())
pass L2
  if not (len(lv("L2", "v0")) == 0)
  if not %1
  if not (len(lv("GraphLayout::topological_layers/collect", "acc")) == 0)
  if (len(lv("GraphLayout::topological_layers/collect", "acc")) < n("GraphLayout::topological_layers#3/1") + 1)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  then v0 := lv("GraphLayout::topological_layers#3/1", "in_degree")
  then v1 := vpush(lv("L2", "v1"), lv("GraphLayout::topological_layers/collect", "acc"))
pass L3
  if (n("L3") < len(lv("L2", "v1")))
  if not (n("L4") < len(lv("L2", "v1")[n("L3")]))
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if (n("L4") < len(lv("L2", "v1")[n("L3")]))
  if ("function" === (*%3).node_type)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @1 | v0 from lv("L3", "v0")
  do %3
  do %4
  do %6
  do %7
  do %8
  then v0 := post(0, %8)
pass L4
  if (n("L4") < len(lv("L2", "v1")[n("L3")]))
  if not ("function" === (*%3).node_type)
  if ("struct" === (*%3).node_type)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @1 | v0 from lv("L3", "v0")
  do %3
  do %4
  do %6
  do %7
  do %9
  then v0 := post(0, %9)
pass L4
  if (n("L4") < len(lv("L2", "v1")[n("L3")]))
  if not ("function" === (*%3).node_type)
  if not ("struct" === (*%3).node_type)
  if ("module" === (*%3).node_type)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @1 | v0 from lv("L3", "v0")
  do %3
  do %4
  do %6
  do %7
  do %10
  then v0 := post(0, %10)
pass L4
  if (n("L4") < len(lv("L2", "v1")[n("L3")]))
  if not ("function" === (*%3).node_type)
  if not ("struct" === (*%3).node_type)
  if not ("module" === (*%3).node_type)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @1 | v0 from lv("L3", "v0")
  do %3
  do %4
  do %6
  do %7
  do %11
  then v0 := post(0, %11)
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if %12
  if %13
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @0 | v0 from lv("L3", "v0")
  do %14
  do %15
  do %16
  do %17
  do %18
  then v0 := post(0, %18)
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if %12
  if not %13
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if not %12
  if %13
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if not %12
  if not %13
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from lv("L1", "v0") | v1 from vnew()
  loop L3 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")

fn oak_visualize::graph::GraphLayout::topological_layers::{closure#2}  [private]
  takes &(&alloc::string::String, &usize)
case
  ret (*(*$1).1)

fn oak_visualize::graph::GraphLayout::layout_graph
  given oak_visualize::graph::GraphLayout::circular_layout
  given oak_visualize::graph::GraphLayout::force_directed_layout
  given oak_visualize::graph::GraphLayout::grid_layout
  given oak_visualize::graph::GraphLayout::hierarchical_layout
  given oak_visualize::graph::GraphLayout::organic_layout
case
  if ((*$0).algorithm is ForceDirected)
  do call "oak_visualize::graph::GraphLayout::force_directed_layout"($0, $1)
  ret call "oak_visualize::graph::GraphLayout::force_directed_layout"($0, $1)
case
  if ((*$0).algorithm is Organic)
  do call "oak_visualize::graph::GraphLayout::organic_layout"($0, $1)
  ret call "oak_visualize::graph::GraphLayout::organic_layout"($0, $1)
case
  if ((*$0).algorithm is Grid)
  do call "oak_visualize::graph::GraphLayout::grid_layout"($0, $1)
  ret call "oak_visualize::graph::GraphLayout::grid_layout"($0, $1)
case
  if ((*$0).algorithm is Hierarchical)
  do call "oak_visualize::graph::GraphLayout::hierarchical_layout"($0, $1)
  ret call "oak_visualize::graph::GraphLayout::hierarchical_layout"($0, $1)
case
  if ((*$0).algorithm is Circular)
  do call "oak_visualize::graph::GraphLayout::circular_layout"($0, $1)
  ret call "oak_visualize::graph::GraphLayout::circular_layout"($0, $1)

fn oak_visualize::graph::GraphLayout::new
case
  ret new "oak_visualize::graph::GraphLayout"{algorithm: new "oak_visualize::graph::GraphLayoutAlgorithm" ForceDirected{}, config: new "oak_visualize::graph::GraphLayoutConfig"{node_width: const('float', '4054000000000000'), node_height: const('float', '4044000000000000'), node_spacing: const('float', '4034000000000000'), layer_distance: const('float', '4059000000000000'), circle_radius: const('float', '4069000000000000'), iterations: 100, spring_strength: const('float', '3fb999999999999a'), repulsion_strength: const('float', '408f400000000000'), damping: const('float', '3feccccccccccccd'), max_velocity: const('float', '4024000000000000'), ideal_edge_length: const('float', '4059000000000000')}}

fn oak_visualize::graph::GraphLayout::organic_layout  [private]
  takes &oak_visualize::graph::GraphLayout; &oak_visualize::graph::Graph
  given <oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add
  given <oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub
  given oak_visualize::geometry::Point::distance_to
  given oak_visualize::geometry::Point::new
  given oak_visualize::geometry::Point::origin
  given oak_visualize::geometry::Rect::center
  given oak_visualize::geometry::Rect::new
  given oak_visualize::geometry::Size::new
  given oak_visualize::graph::GraphLayout::new
  given oak_visualize::graph::GraphLayout::with_algorithm
  given oak_visualize::graph::GraphLayout::with_config
  given oak_visualize::layout::Edge::new
  given oak_visualize::layout::Edge::with_points
  given oak_visualize::layout::Layout::add_edge
  given oak_visualize::layout::Layout::add_node_with_metadata
  given oak_visualize::layout::Layout::new
  let %1 = call "oak_visualize::graph::GraphLayout::with_config"(call "oak_visualize::graph::GraphLayout::with_algorithm"(call "oak_visualize::graph::GraphLayout::new"(), new "oak_visualize::graph::GraphLayoutAlgorithm" ForceDirected{}), new "oak_visualize::graph::GraphLayoutConfig"{node_width: (*$0).config.node_width, node_height: (*$0).config.node_height, node_spacing: (*$0).config.node_spacing, layer_distance: (*$0).config.layer_distance, circle_radius: (*$0).config.circle_radius, iterations: (*$0).config.iterations, spring_strength: op('fMul', (*$0).config.spring_strength, const('float', '3fe0000000000000')), repulsion_strength: op('fMul', (*$0).config.repulsion_strength, const('float', '3ff8000000000000')), damping: const('float', '3fee666666666666'), max_velocity: (*$0).config.max_velocity, ideal_edge_length: (*$0).config.ideal_edge_length})
  let %2 = call "oak_visualize::geometry::Point::distance_to"(rv(hget(lv("L1", "v1"), (*$1).edges[n("L4")].from)@Some.0), rv(hget(lv("L1", "v1"), (*$1).edges[n("L4")].to)@Some.0))
  let %3 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(hget(lv("L1", "v1"), (*$1).edges[n("L4")].to)@Some.0, hget(lv("L1", "v1"), (*$1).edges[n("L4")].from)@Some.0)
  let %4 = call "oak_visualize::geometry::Point::new"(op('fDiv', %3.x, %2), op('fDiv', %3.y, %2))
  let %5 = op('fMul', (*$1).edges[n("L4")].weight, op('fMul', %1.config.spring_strength, op('fSub', %2, %1.config.ideal_edge_length)))
  let %6 = call "oak_visualize::geometry::Point::new"(op('fMul', %4.x, %5), op('fMul', %4.y, %5))
  let %7 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(hget(lv("L4", "v0"), (*$1).edges[n("L4")].from)@Some.0, %6)
  let %8 = hget(hins(lv("L4", "v0"), (*$1).edges[n("L4")].from, %7), (*$1).edges[n("L4")].to)
  let %9 = op('fDiv', op('fMul', op('fMul', const('float', '4000000000000000'), const('float', '400921fb54442d18')), op('cast:IntToFloat', n("L0"))), op('cast:IntToFloat', len((*$1).nodes)))
  let %10 = call "oak_visualize::geometry::Point::new"(op('fMul', const('float', '4059000000000000'), call "f64::cos"(%9)), op('fMul', const('float', '4059000000000000'), call "f64::sin"(%9)))
  let %11 = call "oak_visualize::geometry::Point::distance_to"(rv(hget(lv("L1", "v1"), (*$1).edges[n("L3")].from)@Some.0), rv(hget(lv("L1", "v1"), (*$1).edges[n("L3")].to)@Some.0))
  let %12 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(hget(lv("L1", "v1"), (*$1).edges[n("L3")].to)@Some.0, hget(lv("L1", "v1"), (*$1).edges[n("L3")].from)@Some.0)
  let %13 = call "oak_visualize::geometry::Point::new"(op('fDiv', %12.x, %11), op('fDiv', %12.y, %11))
  let %14 = op('fMul', (*$1).edges[n("L3")].weight, op('fMul', %1.config.spring_strength, op('fSub', %11, %1.config.ideal_edge_length)))
  let %15 = call "oak_visualize::geometry::Point::new"(op('fMul', %13.x, %14), op('fMul', %13.y, %14))
  let %16 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(hget(lv("L3", "v0"), (*$1).edges[n("L3")].from)@Some.0, %15)
  let %17 = hget(hins(lv("L3", "v0"), (*$1).edges[n("L3")].from, %16), (*$1).edges[n("L3")].to)
  let %18 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%17@Some.0, %15)
  let %19 = hget(lv("L3", "v0"), call "HashMap::keys"((*$1).nodes)[n("L4")])
  let %20 = hget(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L4")])
  let %21 = hget(lv("L4", "v1"), call "HashMap::keys"((*$1).nodes)[n("L4")])
  let %22 = call "oak_visualize::geometry::Point::new"(op('fAdd', %19@Some.0.x, op('fMul', %20@Some.0.x, %1.config.damping)), op('fAdd', %19@Some.0.y, op('fMul', %20@Some.0.y, %1.config.damping)))
  let %23 = call "f64::sqrt"(op('fAdd', op('fMul', %22.x, %22.x), op('fMul', %22.y, %22.y)))
  let %24 = (%22 with {x: op('fMul', %22.x, op('fDiv', %1.config.max_velocity, %23)), y: op('fMul', %22.y, op('fDiv', %1.config.max_velocity, %23))})
  let %25 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(%21@Some.0, %24)
  let %26 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(%21@Some.0, %22)
  let %27 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%8@Some.0, %6)
  let %28 = (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + n("L4") + 2)
  let %29 = hget(lv("L1", "v1"), call "HashMap::keys"((*$1).nodes)[n("L3")])
  let %30 = hget(lv("L1", "v1"), call "HashMap::keys"((*$1).nodes)[(n("L3") + n("L4") + 1)])
  let %31 = hget(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L3")])
  let %32 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%29@Some.0, %30@Some.0)
  let %33 = call "oak_visualize::geometry::Point::distance_to"(rv(%29@Some.0), rv(%30@Some.0))
  let %34 = call "oak_visualize::geometry::Point::new"(op('fDiv', %32.x, call "f64::max"(%33, const('float', '3ff0000000000000'))), op('fDiv', %32.y, call "f64::max"(%33, const('float', '3ff0000000000000'))))
  let %35 = op('fDiv', %1.config.repulsion_strength, op('fMul', call "f64::max"(%33, const('float', '3ff0000000000000')), call "f64::max"(%33, const('float', '3ff0000000000000'))))
  let %36 = call "oak_visualize::geometry::Point::new"(op('fMul', %34.x, %35), op('fMul', %34.y, %35))
  let %37 = call "<oak_visualize::geometry::Point as core::ops::arith::Add<oak_visualize::geometry::Point>>::add"(%31@Some.0, %36)
  let %38 = hins(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L3")], %37)
  let %39 = hget(%38, call "HashMap::keys"((*$1).nodes)[(n("L3") + n("L4") + 1)])
  let %40 = call "<oak_visualize::geometry::Point as core::ops::arith::Sub<oak_visualize::geometry::Point>>::sub"(%39@Some.0, %36)
  let %41 = hget(lv("L1", "v1"), call "HashMap::iter"((*$1).nodes)[n("L2")].0)
  let %42 = ("function" === (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).node_type)
  let %43 = call "oak_visualize::geometry::Size::new"(%1.config.node_width, %1.config.node_height)
  let %44 = ((*call "HashMap::iter"((*$1).nodes)[n("L2")].1).size is Some)
  let %45 = call "oak_visualize::geometry::Point::new"(op('fSub', %41@Some.0.x, op('fDiv', case{%44 => (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).size@Some.0.width; !%44 => %43.width}, const('float', '4000000000000000'))), op('fSub', %41@Some.0.y, op('fDiv', case{%44 => (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).size@Some.0.height; !%44 => %43.height}, const('float', '4000000000000000'))))
  let %46 = call "oak_visualize::geometry::Rect::new"(%45, case{%44 => (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).size@Some.0; !%44 => %43})
  let %47 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L2")].0), (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).label, %46, new "oak_visualize::layout::NodeType" Function{})
  let %48 = ("struct" === (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).node_type)
  let %49 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L2")].0), (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).label, %46, new "oak_visualize::layout::NodeType" Struct{})
  let %50 = ("module" === (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).node_type)
  let %51 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L2")].0), (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).label, %46, new "oak_visualize::layout::NodeType" Module{})
  let %52 = call "oak_visualize::layout::Layout::add_node_with_metadata"(rv(lv("L2", "v0")), (*call "HashMap::iter"((*$1).nodes)[n("L2")].0), (*call "HashMap::iter"((*$1).nodes)[n("L2")].1).label, %46, new "oak_visualize::layout::NodeType" Default{})
  let %53 = (hget(lv("L3", "v0").nodes, (*$1).edges[n("L3")].from) is Some)
  let %54 = (hget(lv("L3", "v0").nodes, (*$1).edges[n("L3")].to) is Some)
  let %55 = call "oak_visualize::layout::Edge::new"((*$1).edges[n("L3")].from, (*$1).edges[n("L3")].to)
  let %56 = call "oak_visualize::geometry::Rect::center"(rv(hget(lv("L3", "v0").nodes, (*$1).edges[n("L3")].from)@Some.0.rect))
  let %57 = call "oak_visualize::geometry::Rect::center"(rv(hget(lv("L3", "v0").nodes, (*$1).edges[n("L3")].to)@Some.0.rect))
  let %58 = call "oak_visualize::layout::Edge::with_points"(%55, vpush(vpush(vnew(), %56), %57))
  let %59 = call "oak_visualize::layout::Layout::add_edge"(rv(lv("L3", "v0")), %58)
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < %1.config.iterations)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].to) is Some)
  if ltr(const('float', '0'), %2)
  if (hget(lv("L4", "v0"), (*$1).edges[n("L4")].from) is Some)
  if not (%8 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  panics
pass L0
  if (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  loop L0 | v0 from hnew() | v1 from hnew()
  do call "f64::cos"(%9)
  do call "f64::sin"(%9)
  do %10
  do call "oak_visualize::geometry::Point::origin"()
  then v0 := hins(lv("L0", "v0"), (*call "HashMap::keys"((*$1).nodes)[n("L0")]), %10)
  then v1 := hins(lv("L0", "v1"), (*call "HashMap::keys"((*$1).nodes)[n("L0")]), call "oak_visualize::geometry::Point::origin"())
pass L1
  if (n("L1") < %1.config.iterations)
  if (len(call "HashMap::keys"((*$1).nodes)) < n("GraphLayout::force_directed_layout#2/1") + 1)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if (len((*$1).edges) < n("L3") + 1)
  if (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L2
  if (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if not (n("GraphLayout::force_directed_layout#4/1") + n("L2") + 1 < len(call "HashMap::keys"((*$1).nodes)))
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  then v0 := lv("GraphLayout::force_directed_layout#4/1", "forces")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L3")].from) is Some)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L3")].to) is Some)
  if ltr(const('float', '0'), %11)
  if (hget(lv("L3", "v0"), (*$1).edges[n("L3")].from) is Some)
  if (%17 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  do %12
  do %11
  do %13
  do %15
  do %16
  do %18
  then v0 := hins(hins(lv("L3", "v0"), (*$1).edges[n("L3")].from, %16), (*$1).edges[n("L3")].to, %18)
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L3")].from) is Some)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L3")].to) is Some)
  if not ltr(const('float', '0'), %11)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  do %12
  do %11
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L3")].from) is Some)
  if not (hget(lv("L1", "v1"), (*$1).edges[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if not (hget(lv("L1", "v1"), (*$1).edges[n("L3")].from) is Some)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if not (hget(lv("L1", "v1"), (*$1).edges[n("L3")].from) is Some)
  if not (hget(lv("L1", "v1"), (*$1).edges[n("L3")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%19 is Some)
  if (%20 is Some)
  if (%21 is Some)
  if ltr(%1.config.max_velocity, %23)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  do %22
  do %23
  do %25
  then v0 := hins(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L4")], %24)
  then v1 := hins(lv("L4", "v1"), call "HashMap::keys"((*$1).nodes)[n("L4")], %25)
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%19 is Some)
  if (%20 is Some)
  if (%21 is Some)
  if not ltr(%1.config.max_velocity, %23)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  do %22
  do %23
  do %26
  then v0 := hins(lv("L4", "v0"), call "HashMap::keys"((*$1).nodes)[n("L4")], %22)
  then v1 := hins(lv("L4", "v1"), call "HashMap::keys"((*$1).nodes)[n("L4")], %26)
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%19 is Some)
  if (%20 is Some)
  if not (%21 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%19 is Some)
  if not (%20 is Some)
  if (%21 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if (%19 is Some)
  if not (%20 is Some)
  if not (%21 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if not (%19 is Some)
  if (%20 is Some)
  if (%21 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if not (%19 is Some)
  if (%20 is Some)
  if not (%21 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if not (%19 is Some)
  if not (%20 is Some)
  if (%21 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L4
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L4") + 1)
  if not (%19 is Some)
  if not (%20 is Some)
  if not (%21 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from lv("GraphLayout::force_directed_layout#2/1", "forces")
  loop L3 | v0 from lv("L2", "v0")
  loop L4 | v0 from lv("L1", "v0") | v1 from lv("L1", "v1")
  then v0 := lv("L4", "v0")
  then v1 := lv("L4", "v1")
pass L2
  if (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  do call "oak_visualize::geometry::Point::origin"()
  then v0 := hins(lv("L2", "v0"), (*call "HashMap::keys"((*$1).nodes)[n("L2")]), call "oak_visualize::geometry::Point::origin"())
pass L3
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if (len(call "HashMap::keys"((*$1).nodes)) < n("GraphLayout::force_directed_layout#4/1") + n("L3") + 2)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("GraphLayout::force_directed_layout#4/1", "forces")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].to) is Some)
  if ltr(const('float', '0'), %2)
  if (hget(lv("L4", "v0"), (*$1).edges[n("L4")].from) is Some)
  if (%8 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  do %3
  do %2
  do %4
  do %6
  do %7
  do %27
  then v0 := hins(hins(lv("L4", "v0"), (*$1).edges[n("L4")].from, %7), (*$1).edges[n("L4")].to, %27)
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].to) is Some)
  if not ltr(const('float', '0'), %2)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  do %3
  do %2
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].from) is Some)
  if not (hget(lv("L1", "v1"), (*$1).edges[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if not (hget(lv("L1", "v1"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not (len((*$1).edges) < n("L4") + 1)
  if not (hget(lv("L1", "v1"), (*$1).edges[n("L4")].from) is Some)
  if not (hget(lv("L1", "v1"), (*$1).edges[n("L4")].to) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < %1.config.iterations)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if not (len((*$1).edges) < n("L4") + 1)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].from) is Some)
  if (hget(lv("L1", "v1"), (*$1).edges[n("L4")].to) is Some)
  if ltr(const('float', '0'), %2)
  if not (hget(lv("L4", "v0"), (*$1).edges[n("L4")].from) is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @0 | v0 from lv("L3", "v0")
  panics
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < %1.config.iterations)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if not %28
  if (%29 is Some)
  if (%30 is Some)
  if (%31 is Some)
  if not (%39 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  panics
pass L4
  if not %28
  if (%29 is Some)
  if (%30 is Some)
  if (%31 is Some)
  if (%39 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  do %32
  do %33
  do call "f64::max"(%33, const('float', '3ff0000000000000'))
  do %34
  do %36
  do %37
  do %40
  then v0 := hins(%38, call "HashMap::keys"((*$1).nodes)[(n("L3") + n("L4") + 1)], %40)
pass L4
  if not %28
  if (%29 is Some)
  if not (%30 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not %28
  if not (%29 is Some)
  if (%30 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
pass L4
  if not %28
  if not (%29 is Some)
  if not (%30 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  then v0 := lv("L4", "v0")
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < %1.config.iterations)
  if not (n("L2") < len(call "HashMap::keys"((*$1).nodes)))
  if not (len(call "HashMap::keys"((*$1).nodes)) < n("L3") + 1)
  if not %28
  if (%29 is Some)
  if (%30 is Some)
  if not (%31 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from hnew()
  loop L3 | v0 from lv("L2", "v0")
  loop L4 @1 | v0 from lv("L3", "v0")
  panics
case
  if (len((*$1).nodes) == 0)
  do call "oak_visualize::graph::GraphLayout::new"()
  do call "oak_visualize::graph::GraphLayout::with_algorithm"(call "oak_visualize::graph::GraphLayout::new"(), new "oak_visualize::graph::GraphLayoutAlgorithm" ForceDirected{})
  do %1
  do call "oak_visualize::layout::Layout::new"()
  ret new "core::result::Result" Ok{0: call "oak_visualize::layout::Layout::new"()}
case
  if not (len((*$1).nodes) == 0)
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if not (n("L1") < %1.config.iterations)
  if not (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (len((*$1).edges) < n("L3") + 1)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do call "oak_visualize::graph::GraphLayout::new"()
  do call "oak_visualize::graph::GraphLayout::with_algorithm"(call "oak_visualize::graph::GraphLayout::new"(), new "oak_visualize::graph::GraphLayoutAlgorithm" ForceDirected{})
  do %1
  do call "oak_visualize::layout::Layout::new"()
  ret new "core::result::Result" Ok{0: lv("L3", "v0")}
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (%41 is Some)
  if %42
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %43
  do %45
  do %46
  do %47
  then v0 := post(0, %47)
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (%41 is Some)
  if not %42
  if %48
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %43
  do %45
  do %46
  do %49
  then v0 := post(0, %49)
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (%41 is Some)
  if not %42
  if not %48
  if %50
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %43
  do %45
  do %46
  do %51
  then v0 := post(0, %51)
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if (%41 is Some)
  if not %42
  if not %48
  if not %50
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  do %43
  do %45
  do %46
  do %52
  then v0 := post(0, %52)
pass L2
  if (n("L2") < len(call "HashMap::iter"((*$1).nodes)))
  if not (%41 is Some)
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  then v0 := lv("L2", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if %53
  if %54
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  do %55
  do %56
  do %57
  do %58
  do %59
  then v0 := post(0, %59)
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if %53
  if not %54
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if not %53
  if %54
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")
pass L3
  if not (len((*$1).edges) < n("L3") + 1)
  if not %53
  if not %54
  loop L0 | v0 from hnew() | v1 from hnew()
  loop L1 | v0 from lv("L0", "v1") | v1 from lv("L0", "v0")
  loop L2 | v0 from call "oak_visualize::layout::Layout::new"()
  loop L3 | v0 from lv("L2", "v0")
  then v0 := lv("L3", "v0")

fn oak_visualize::graph::GraphLayout::topological_layers  [private]
  takes &oak_visualize::graph::GraphLayout; &oak_visualize::graph::Graph
  let %1 = (n("GraphLayout::topological_layers/collect") < len(call "HashMap::iter"(lv("L2", "v1"))))
  let %2 = call "core::iter::traits::iterator::Iterator::min_by_key"(new "it.own"{seq: call "HashMap::iter"(lv("L2", "v1")), pos: 0, end: len(call "HashMap::iter"(lv("L2", "v1")))}, clo('oak_visualize::graph::GraphLayout::topological_layers::{closure#2}', <>))
case
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if not (n("L1") < len((*$1).edges))
  if (len(lv("L2", "v1")) == 0)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from vnew() | v1 from lv("L1", "v0")
  ret new "core::result::Result" Ok{0: lv("L2", "v0")}
pass L0
  if (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  loop L0 | v0 from hnew()
  then v0 := hins(lv("L0", "v0"), (*call "HashMap::keys"((*$1).nodes)[n("L0")]), 0)
pass L1
  if (n("L1") < len((*$1).edges))
  if (hget(lv("L1", "v0"), (*$1).edges[n("L1")].to) is Some)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  then v0 := hins(lv("L1", "v0"), (*$1).edges[n("L1")].to, (hget(lv("L1", "v0"), (*$1).edges[n("L1")].to)@Some.0 + 1))
pass L2
  if not (len(lv("L2", "v1")) == 0)
  if not %1
  if (len(lv("GraphLayout::topological_layers/collect", "acc")) == 0)
  if (%2 is Some)
  if not (n("GraphLayout::topological_layers#3") < 1)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from vnew() | v1 from lv("L1", "v0")
  do %2
  then v0 := vpush(lv("L2", "v0"), vpush(vnew(), (*%2@Some.0.0)))
  then v1 := lv("GraphLayout::topological_layers#3", "in_degree")
pass L2
  if not (len(lv("L2", "v1")) == 0)
  if not %1
  if (len(lv("GraphLayout::topological_layers/collect", "acc")) == 0)
  if not (%2 is Some)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from vnew() | v1 from lv("L1", "v0")
  do %2
  then v0 := vpush(lv("L2", "v0"), vnew())
  then v1 := lv("L2", "v1")
pass L2
  if not (len(lv("L2", "v1")) == 0)
  if not %1
  if not (len(lv("GraphLayout::topological_layers/collect", "acc")) == 0)
  if (len(lv("GraphLayout::topological_layers/collect", "acc")) < n("GraphLayout::topological_layers#3") + 1)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  loop L2 | v0 from vnew() | v1 from lv("L1", "v0")
  then v0 := vpush(lv("L2", "v0"), lv("GraphLayout::topological_layers/collect", "acc"))
  then v1 := lv("GraphLayout::topological_layers#3", "in_degree")
case
  if not (n("L0") < len(call "HashMap::keys"((*$1).nodes)))
  if (n("L1") < len((*$1).edges))
  if not (hget(lv("L1", "v0"), (*$1).edges[n("L1")].to) is Some)
  loop L0 | v0 from hnew()
  loop L1 | v0 from lv("L0", "v0")
  panics

fn oak_visualize::graph::GraphLayout::visualize
  given oak_visualize::graph::GraphLayout::layout_graph
  given oak_visualize::render::SvgRenderer::new
  given oak_visualize::render::SvgRenderer::render_layout
  let %1 = call "oak_visualize::render::SvgRenderer::render_layout"(rv(call "oak_visualize::render::SvgRenderer::new"()), rv(call "oak_visualize::graph::GraphLayout::layout_graph"($0, $1)@Ok.0))
case
  if (call "oak_visualize::graph::GraphLayout::layout_graph"($0, $1) is Err)
  do call "oak_visualize::graph::GraphLayout::layout_graph"($0, $1)
  ret new "core::result::Result" Err{0: call "oak_visualize::graph::GraphLayout::layout_graph"($0, $1)@Err.0}
case
  if not (call "oak_visualize::graph::GraphLayout::layout_graph"($0, $1) is Err)
  do call "oak_visualize::graph::GraphLayout::layout_graph"($0, $1)
  do call "oak_visualize::render::SvgRenderer::new"()
  do %1
  ret %1

fn oak_visualize::graph::GraphLayout::with_algorithm
case
  ret ($0 with {algorithm: $1})

fn oak_visualize::graph::GraphLayout::with_attraction
case
  ret ($0 with {config: ($0.config with {spring_strength: $1})})

fn oak_visualize::graph::GraphLayout::with_config
case
  ret ($0 with {config: $1})

fn oak_visualize::graph::GraphLayout::with_iterations
case
  ret ($0 with {config: ($0.config with {iterations: $1})})

fn oak_visualize::graph::GraphLayout::with_repulsion
case
  ret ($0 with {config: ($0.config with {repulsion_strength: $1})})

fn oak_visualize::graph::GraphNode::new
case
  ret new "oak_visualize::graph::GraphNode"{id: $0, label: $1, node_type: "default", size: new "core::option::Option" None{}, attributes: hnew(), weight: const('float', '3ff0000000000000')}

fn oak_visualize::graph::GraphNode::with_attribute
case
  ret ($0 with {attributes: hins($0.attributes, $1, $2)})

fn oak_visualize::graph::GraphNode::with_size
case
  ret ($0 with {size: new "core::option::Option" Some{0: $1}})

fn oak_visualize::graph::GraphNode::with_type
case
  ret ($0 with {node_type: $1})

fn oak_visualize::graph::GraphNode::with_weight
case
  ret ($0 with {weight: $1})
