fn <oak_visualize::Error as core::convert::From<core::io::error::Error>>::from
case
  ret new "oak_visualize::Error" IoError{0: $0}

fn <oak_visualize::Error as core::fmt::Display>::fmt
case
  if ((*$0) is LayoutError)
  set $1 := cat(<(*$1), "Layout error: ", (*$0)@LayoutError.0>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is Generic)
  set $1 := cat(<(*$1), "Error: ", (*$0)@Generic.0>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is IoError)
  set $1 := cat(<(*$1), "IO error: ", display('d', (*$0)@IoError.0)>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is Serialization)
  set $1 := cat(<(*$1), "Serialization error: ", (*$0)@Serialization.0>)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if ((*$0) is RenderError)
  set $1 := cat(<(*$1), "Render error: ", (*$0)@RenderError.0>)
  ret new "core::result::Result" Ok{0: tup{}}

fn <oak_visualize::render::ElementStyle as core::default::Default>::default
case
  ret new "oak_visualize::render::ElementStyle"{fill_color: new "core::option::Option" None{}, stroke_color: new "core::option::Option" None{}, stroke_width: new "core::option::Option" None{}, text_color: new "core::option::Option" None{}, text_size: new "core::option::Option" None{}, opacity: new "core::option::Option" None{}, class_name: new "core::option::Option" None{}, attributes: hnew()}

fn <oak_visualize::render::RenderConfig as core::default::Default>::default
case
  ret new "oak_visualize::render::RenderConfig"{canvas_width: const('float', '4089000000000000'), canvas_height: const('float', '4082c00000000000'), background_color: "#ffffff", node_fill_color: "#e1f5fe", node_stroke_color: "#0277bd", node_stroke_width: const('float', '4000000000000000'), edge_color: "#666666", edge_width: const('float', '3ff8000000000000'), text_color: "#333333", text_size: const('float', '4028000000000000'), font_family: "Arial, sans-serif", padding: const('float', '4034000000000000'), show_labels: 1, show_arrows: 1, arrow_size: const('float', '4020000000000000')}

fn <oak_visualize::render::SvgRenderer as core::default::Default>::default
case
  ret new "oak_visualize::render::SvgRenderer"{config: new "oak_visualize::render::RenderConfig"{canvas_width: const('float', '4089000000000000'), canvas_height: const('float', '4082c00000000000'), background_color: "#ffffff", node_fill_color: "#e1f5fe", node_stroke_color: "#0277bd", node_stroke_width: const('float', '4000000000000000'), edge_color: "#666666", edge_width: const('float', '3ff8000000000000'), text_color: "#333333", text_size: const('float', '4028000000000000'), font_family: "Arial, sans-serif", padding: const('float', '4034000000000000'), show_labels: 1, show_arrows: 1, arrow_size: const('float', '4020000000000000')}, node_styles: hnew(), edge_styles: hnew()}

fn <oak_visualize::theme::VisualizationTheme as core::default::Default>::default
case
  ret new "oak_visualize::theme::VisualizationTheme"{name: "Light", background_color: "#FFFFFF", node: new "oak_visualize::theme::NodeTheme"{fill_color: "#F8F9FA", stroke_color: "#DEE2E6", stroke_width: const('float', '3f800000'), border_radius: const('float', '40800000'), shadow: new "oak_visualize::theme::ShadowConfig"{enabled: 1, color: "rgba(0, 0, 0, 0.1)", offset_x: const('float', '0'), offset_y: const('float', '40000000'), blur_radius: const('float', '40800000')}}, edge: new "oak_visualize::theme::EdgeTheme"{color: "#6C757D", width: const('float', '3fc00000'), style: "solid", arrow: new "oak_visualize::theme::ArrowConfig"{enabled: 1, size: const('float', '41000000'), arrow_type: "triangle"}}, text: new "oak_visualize::theme::TextTheme"{font_family: "Arial, sans-serif", font_size: const('float', '41400000'), color: "#212529", font_weight: "normal"}, highlight: new "oak_visualize::theme::HighlightTheme"{selected_color: "#007BFF", hover_color: "#0056B3", error_color: "#DC3545", warning_color: "#FFC107"}}

fn oak_visualize::render::ElementStyle::new
case
  ret new "oak_visualize::render::ElementStyle"{fill_color: new "core::option::Option" None{}, stroke_color: new "core::option::Option" None{}, stroke_width: new "core::option::Option" None{}, text_color: new "core::option::Option" None{}, text_size: new "core::option::Option" None{}, opacity: new "core::option::Option" None{}, class_name: new "core::option::Option" None{}, attributes: hnew()}

fn oak_visualize::render::ElementStyle::with_attribute
case
  ret ($0 with {attributes: hins($0.attributes, $1, $2)})

fn oak_visualize::render::ElementStyle::with_class
case
  ret ($0 with {class_name: new "core::option::Option" Some{0: $1}})

fn oak_visualize::render::ElementStyle::with_fill
case
  ret ($0 with {fill_color: new "core::option::Option" Some{0: $1}})

fn oak_visualize::render::ElementStyle::with_opacity
case
  ret ($0 with {opacity: new "core::option::Option" Some{0: $1}})

fn oak_visualize::render::ElementStyle::with_stroke
case
  ret ($0 with {stroke_color: new "core::option::Option" Some{0: $1}, stroke_width: new "core::option::Option" Some{0: $2}})

fn oak_visualize::render::ElementStyle::with_text
case
  ret ($0 with {text_color: new "core::option::Option" Some{0: $1}, text_size: new "core::option::Option" Some{0: $2}})

fn oak_visualize::render::LayoutExporter::export
  given oak_visualize::render::SvgRenderer::render_layout
  let %1 = call "oak_visualize::render::SvgRenderer::render_layout"(rv(new "oak_visualize::render::SvgRenderer"{config: new "oak_visualize::render::RenderConfig"{canvas_width: (*$0).config.canvas_width, canvas_height: (*$0).config.canvas_height, background_color: (*$0).config.background_color, node_fill_color: (*$0).config.node_fill_color, node_stroke_color: (*$0).config.node_stroke_color, node_stroke_width: (*$0).config.node_stroke_width, edge_color: (*$0).config.edge_color, edge_width: (*$0).config.edge_width, text_color: (*$0).config.text_color, text_size: (*$0).config.text_size, font_family: (*$0).config.font_family, padding: (*$0).config.padding, show_labels: (*$0).config.show_labels, show_arrows: (*$0).config.show_arrows, arrow_size: (*$0).config.arrow_size}, node_styles: hnew(), edge_styles: hnew()}), $1)
  let %2 = call "serde_json::value::to_value"(rv((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).rect.origin.x))
  let %3 = call "serde_json::value::to_value"(rv((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).rect.origin.y))
  let %4 = call "serde_json::value::to_value"(rv((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).rect.size.width))
  let %5 = call "serde_json::value::to_value"(rv((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).rect.size.height))
  let %6 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "x", %2@Ok.0)
  let %7 = call "serde_json::map::Map::insert"(rv(post(0, %6)), "y", %3@Ok.0)
  let %8 = call "serde_json::map::Map::insert"(rv(post(0, %7)), "width", %4@Ok.0)
  let %9 = call "serde_json::map::Map::insert"(rv(post(0, %8)), "height", %5@Ok.0)
  let %10 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].from))
  let %11 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].to))
  let %12 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].label))
  let %13 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "from", %10@Ok.0)
  let %14 = call "serde_json::map::Map::insert"(rv(post(0, %13)), "to", %11@Ok.0)
  let %15 = call "serde_json::map::Map::insert"(rv(post(0, %14)), "points", call "serde_json::value::to_value"(rv(lv("LayoutExporter::export_json#2/1", "points")))@Ok.0)
  let %16 = call "serde_json::map::Map::insert"(rv(post(0, %15)), "label", %12@Ok.0)
  let %17 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].points[n("L2")].x))
  let %18 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].points[n("L2")].y))
  let %19 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "x", %17@Ok.0)
  let %20 = call "serde_json::map::Map::insert"(rv(post(0, %19)), "y", %18@Ok.0)
  let %21 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "nodes", call "serde_json::value::to_value"(rv(lv("L0", "v0")))@Ok.0)
  let %22 = call "serde_json::map::Map::insert"(rv(post(0, %21)), "edges", call "serde_json::value::to_value"(rv(lv("L1", "v0")))@Ok.0)
case
  if ((*$0).format is Svg)
  do %1
  ret %1
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if (len((*$1).edges) < n("L1") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  panics
pass L0
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (%2 is Err)
  if not (%3 is Err)
  if not (%4 is Err)
  if not (%5 is Err)
  loop L0 | v0 from hnew()
  do call "serde_json::map::Map::new"()
  do %2
  do %6
  do %3
  do %7
  do %4
  do %8
  do %5
  do %9
  then v0 := hins(lv("L0", "v0"), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), new "serde_json::value::Value"{0: post(0, %9)})
pass L1
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("LayoutExporter::export_json#2/1") < len((*$1).edges[n("L1")].points))
  if not (%10 is Err)
  if not (%11 is Err)
  if not (call "serde_json::value::to_value"(rv(lv("LayoutExporter::export_json#2/1", "points"))) is Err)
  if not (%12 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  do call "serde_json::map::Map::new"()
  do %10
  do %13
  do %11
  do %14
  do call "serde_json::value::to_value"(rv(lv("LayoutExporter::export_json#2/1", "points")))
  do %15
  do %12
  do %16
  then v0 := vpush(lv("L1", "v0"), new "serde_json::value::Value"{0: post(0, %16)})
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if (len((*$1).edges) < n("L1") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  if (call "serde_json::value::to_value"(rv(lv("L1", "v0"))) is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  panics
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if (n("L2") < len((*$1).edges[n("L1")].points))
  if (%17 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
pass L2
  if (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%17 is Err)
  if not (%18 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  do call "serde_json::map::Map::new"()
  do %17
  do %19
  do %18
  do %20
  then v0 := vpush(lv("L2", "v0"), new "serde_json::value::Value"{0: post(0, %20)})
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%17 is Err)
  if (%18 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("L2") < len((*$1).edges[n("L1")].points))
  if (%10 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%10 is Err)
  if (%11 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%10 is Err)
  if not (%11 is Err)
  if (call "serde_json::value::to_value"(rv(lv("L2", "v0"))) is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%10 is Err)
  if not (%11 is Err)
  if not (call "serde_json::value::to_value"(rv(lv("L2", "v0"))) is Err)
  if (%12 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if ((*$0).format is Json)
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if (%2 is Err)
  loop L0 | v0 from hnew()
  panics
case
  if ((*$0).format is Json)
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (%2 is Err)
  if (%3 is Err)
  loop L0 | v0 from hnew()
  panics
case
  if ((*$0).format is Json)
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (%2 is Err)
  if not (%3 is Err)
  if (%4 is Err)
  loop L0 | v0 from hnew()
  panics
case
  if ((*$0).format is Json)
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (%2 is Err)
  if not (%3 is Err)
  if not (%4 is Err)
  if (%5 is Err)
  loop L0 | v0 from hnew()
  panics
case
  if ((*$0).format is Json)
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if (len((*$1).edges) < n("L1") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  if not (call "serde_json::value::to_value"(rv(lv("L1", "v0"))) is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %21
  do call "serde_json::value::to_value"(rv(lv("L1", "v0")))
  do %22
  ret new "core::result::Result" Ok{0: display('d', new "serde_json::value::Value"{0: post(0, %22)})}
case
  if ((*$0).format is Html)
  if (%1 is Err)
  do %1
  ret new "core::result::Result" Err{0: %1@Err.0}
case
  if ((*$0).format is Html)
  if not (%1 is Err)
  do %1
  ret new "core::result::Result" Ok{0: cat(<"<!DOCTYPE html>\n<html lang=\"en\">\n<head>\n    <meta charset=\"UTF-8\">\n    <meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n    <title>Pex Visualization</title>\n    <style>\n        body {\n            margin: 0;\n            padding: 20px;\n            font-family: Arial, sans-serif;\n            background-color: #f5f5f5\n        }\n        .container {\n            max-width: 100%;\n            margin: 0 auto;\n            background-color: white;\n            border-radius: 8px;\n            box-shadow: 0 2px 10px rgba(0,0,0,0.1);\n            padding: 20px\n        }\n        svg {\n            max-width: 100%;\n            height: auto;\n            border: 1px solid #ddd;\n            border-radius: 4px\n        }\n    </style>\n</head>\n<body>\n    <div class=\"container\">\n        <h1>Pex Visualization</h1>\n        ", %1@Ok.0, "\n    </div>\n</body>\n</html>">)}

fn oak_visualize::render::LayoutExporter::export_html  [private]
  takes &oak_visualize::render::LayoutExporter; &oak_visualize::layout::Layout
  given oak_visualize::render::SvgRenderer::render_layout
  let %1 = call "oak_visualize::render::SvgRenderer::render_layout"(rv(new "oak_visualize::render::SvgRenderer"{config: new "oak_visualize::render::RenderConfig"{canvas_width: (*$0).config.canvas_width, canvas_height: (*$0).config.canvas_height, background_color: (*$0).config.background_color, node_fill_color: (*$0).config.node_fill_color, node_stroke_color: (*$0).config.node_stroke_color, node_stroke_width: (*$0).config.node_stroke_width, edge_color: (*$0).config.edge_color, edge_width: (*$0).config.edge_width, text_color: (*$0).config.text_color, text_size: (*$0).config.text_size, font_family: (*$0).config.font_family, padding: (*$0).config.padding, show_labels: (*$0).config.show_labels, show_arrows: (*$0).config.show_arrows, arrow_size: (*$0).config.arrow_size}, node_styles: hnew(), edge_styles: hnew()}), $1)
case
  if (%1 is Err)
  do %1
  ret new "core::result::Result" Err{0: %1@Err.0}
case
  if not (%1 is Err)
  do %1
  ret new "core::result::Result" Ok{0: cat(<"<!DOCTYPE html>\n<html lang=\"en\">\n<head>\n    <meta charset=\"UTF-8\">\n    <meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n    <title>Pex Visualization</title>\n    <style>\n        body {\n            margin: 0;\n            padding: 20px;\n            font-family: Arial, sans-serif;\n            background-color: #f5f5f5\n        }\n        .container {\n            max-width: 100%;\n            margin: 0 auto;\n            background-color: white;\n            border-radius: 8px;\n            box-shadow: 0 2px 10px rgba(0,0,0,0.1);\n            padding: 20px\n        }\n        svg {\n            max-width: 100%;\n            height: auto;\n            border: 1px solid #ddd;\n            border-radius: 4px\n        }\n    </style>\n</head>\n<body>\n    <div class=\"container\">\n        <h1>Pex Visualization</h1>\n        ", %1@Ok.0, "\n    </div>\n</body>\n</html>">)}

fn oak_visualize::render::LayoutExporter::export_json  [private]
  takes &oak_visualize::render::LayoutExporter; &oak_visualize::layout::Layout
  let %1 = call "serde_json::value::to_value"(rv((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).rect.origin.x))
  let %2 = call "serde_json::value::to_value"(rv((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).rect.origin.y))
  let %3 = call "serde_json::value::to_value"(rv((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).rect.size.width))
  let %4 = call "serde_json::value::to_value"(rv((*call "HashMap::iter"((*$1).nodes)[n("L0")].1).rect.size.height))
  let %5 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "x", %1@Ok.0)
  let %6 = call "serde_json::map::Map::insert"(rv(post(0, %5)), "y", %2@Ok.0)
  let %7 = call "serde_json::map::Map::insert"(rv(post(0, %6)), "width", %3@Ok.0)
  let %8 = call "serde_json::map::Map::insert"(rv(post(0, %7)), "height", %4@Ok.0)
  let %9 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].from))
  let %10 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].to))
  let %11 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].label))
  let %12 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "from", %9@Ok.0)
  let %13 = call "serde_json::map::Map::insert"(rv(post(0, %12)), "to", %10@Ok.0)
  let %14 = call "serde_json::map::Map::insert"(rv(post(0, %13)), "points", call "serde_json::value::to_value"(rv(lv("LayoutExporter::export_json#2", "points")))@Ok.0)
  let %15 = call "serde_json::map::Map::insert"(rv(post(0, %14)), "label", %11@Ok.0)
  let %16 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "nodes", call "serde_json::value::to_value"(rv(lv("L0", "v0")))@Ok.0)
  let %17 = call "serde_json::map::Map::insert"(rv(post(0, %16)), "edges", call "serde_json::value::to_value"(rv(lv("L1", "v0")))@Ok.0)
  let %18 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].points[n("L2")].x))
  let %19 = call "serde_json::value::to_value"(rv((*$1).edges[n("L1")].points[n("L2")].y))
  let %20 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "x", %18@Ok.0)
  let %21 = call "serde_json::map::Map::insert"(rv(post(0, %20)), "y", %19@Ok.0)
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if (len((*$1).edges) < n("L1") + 1)
  if (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  panics
pass L0
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (%1 is Err)
  if not (%2 is Err)
  if not (%3 is Err)
  if not (%4 is Err)
  loop L0 | v0 from hnew()
  do call "serde_json::map::Map::new"()
  do %1
  do %5
  do %2
  do %6
  do %3
  do %7
  do %4
  do %8
  then v0 := hins(lv("L0", "v0"), (*call "HashMap::iter"((*$1).nodes)[n("L0")].0), new "serde_json::value::Value"{0: post(0, %8)})
pass L1
  if not (len((*$1).edges) < n("L1") + 1)
  if (len((*$1).edges[n("L1")].points) < n("LayoutExporter::export_json#2") + 1)
  if not (%9 is Err)
  if not (%10 is Err)
  if not (call "serde_json::value::to_value"(rv(lv("LayoutExporter::export_json#2", "points"))) is Err)
  if not (%11 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  do call "serde_json::map::Map::new"()
  do %9
  do %12
  do %10
  do %13
  do call "serde_json::value::to_value"(rv(lv("LayoutExporter::export_json#2", "points")))
  do %14
  do %11
  do %15
  then v0 := vpush(lv("L1", "v0"), new "serde_json::value::Value"{0: post(0, %15)})
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if (len((*$1).edges) < n("L1") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  if (call "serde_json::value::to_value"(rv(lv("L1", "v0"))) is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  panics
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if (len((*$1).edges) < n("L1") + 1)
  if not (call "serde_json::value::to_value"(rv(lv("L0", "v0"))) is Err)
  if not (call "serde_json::value::to_value"(rv(lv("L1", "v0"))) is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"(rv(lv("L0", "v0")))
  do %16
  do call "serde_json::value::to_value"(rv(lv("L1", "v0")))
  do %17
  ret new "core::result::Result" Ok{0: display('d', new "serde_json::value::Value"{0: post(0, %17)})}
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if (n("L2") < len((*$1).edges[n("L1")].points))
  if (%18 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
pass L2
  if (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%18 is Err)
  if not (%19 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  do call "serde_json::map::Map::new"()
  do %18
  do %20
  do %19
  do %21
  then v0 := vpush(lv("L2", "v0"), new "serde_json::value::Value"{0: post(0, %21)})
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%18 is Err)
  if (%19 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("L2") < len((*$1).edges[n("L1")].points))
  if (%9 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%9 is Err)
  if (%10 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%9 is Err)
  if not (%10 is Err)
  if (call "serde_json::value::to_value"(rv(lv("L2", "v0"))) is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (len((*$1).edges) < n("L1") + 1)
  if not (n("L2") < len((*$1).edges[n("L1")].points))
  if not (%9 is Err)
  if not (%10 is Err)
  if not (call "serde_json::value::to_value"(rv(lv("L2", "v0"))) is Err)
  if (%11 is Err)
  loop L0 | v0 from hnew()
  loop L1 | v0 from vnew()
  loop L2 | v0 from vnew()
  panics
case
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if (%1 is Err)
  loop L0 | v0 from hnew()
  panics
case
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (%1 is Err)
  if (%2 is Err)
  loop L0 | v0 from hnew()
  panics
case
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (%1 is Err)
  if not (%2 is Err)
  if (%3 is Err)
  loop L0 | v0 from hnew()
  panics
case
  if not (len(call "HashMap::iter"((*$1).nodes)) < n("L0") + 1)
  if not (%1 is Err)
  if not (%2 is Err)
  if not (%3 is Err)
  if (%4 is Err)
  loop L0 | v0 from hnew()
  panics

fn oak_visualize::render::LayoutExporter::new
case
  ret new "oak_visualize::render::LayoutExporter"{format: $0, config: new "oak_visualize::render::RenderConfig"{canvas_width: const('float', '4089000000000000'), canvas_height: const('float', '4082c00000000000'), background_color: "#ffffff", node_fill_color: "#e1f5fe", node_stroke_color: "#0277bd", node_stroke_width: const('float', '4000000000000000'), edge_color: "#666666", edge_width: const('float', '3ff8000000000000'), text_color: "#333333", text_size: const('float', '4028000000000000'), font_family: "Arial, sans-serif", padding: const('float', '4034000000000000'), show_labels: 1, show_arrows: 1, arrow_size: const('float', '4020000000000000')}}

fn oak_visualize::render::LayoutExporter::with_config
case
  ret ($0 with {config: $1})

fn oak_visualize::render::SvgRenderer::calculate_bounds  [private]
  takes &oak_visualize::render::SvgRenderer; &oak_visualize::layout::Layout
  let %1 = (*call "HashMap::values"((*$1).nodes)[n("L0")]).rect.origin.x
  let %2 = (*call "HashMap::values"((*$1).nodes)[n("L0")]).rect.origin.y
  let %3 = call "f64::max"(lv("L0", "v0"), op('fAdd', %1, (*call "HashMap::values"((*$1).nodes)[n("L0")]).rect.size.width))
  let %4 = call "f64::max"(lv("L0", "v1"), op('fAdd', %2, (*call "HashMap::values"((*$1).nodes)[n("L0")]).rect.size.height))
case
  if (len((*$1).nodes) == 0)
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: const('float', '0'), y: const('float', '0')}, size: new "oak_visualize::geometry::Size"{width: (*$0).config.canvas_width, height: (*$0).config.canvas_height}}
case
  if not (len((*$1).nodes) == 0)
  if (len(call "HashMap::values"((*$1).nodes)) < n("L0") + 1)
  loop L0 | v0 from const('float', 'fff0000000000000') | v1 from const('float', 'fff0000000000000') | v2 from const('float', '7ff0000000000000') | v3 from const('float', '7ff0000000000000')
  ret new "oak_visualize::geometry::Rect"{origin: new "oak_visualize::geometry::Point"{x: lv("L0", "v2"), y: lv("L0", "v3")}, size: new "oak_visualize::geometry::Size"{width: op('fSub', lv("L0", "v0"), lv("L0", "v2")), height: op('fSub', lv("L0", "v1"), lv("L0", "v3"))}}
pass L0
  if not (len(call "HashMap::values"((*$1).nodes)) < n("L0") + 1)
  loop L0 | v0 from const('float', 'fff0000000000000') | v1 from const('float', 'fff0000000000000') | v2 from const('float', '7ff0000000000000') | v3 from const('float', '7ff0000000000000')
  do call "f64::min"(lv("L0", "v2"), %1)
  do call "f64::min"(lv("L0", "v3"), %2)
  do %3
  do %4
  then v0 := %3
  then v1 := %4
  then v2 := call "f64::min"(lv("L0", "v2"), %1)
  then v3 := call "f64::min"(lv("L0", "v3"), %2)

fn oak_visualize::render::SvgRenderer::config
case
  ret rv((*$0).config)

fn oak_visualize::render::SvgRenderer::new
case
  ret new "oak_visualize::render::SvgRenderer"{config: new "oak_visualize::render::RenderConfig"{canvas_width: const('float', '4089000000000000'), canvas_height: const('float', '4082c00000000000'), background_color: "#ffffff", node_fill_color: "#e1f5fe", node_stroke_color: "#0277bd", node_stroke_width: const('float', '4000000000000000'), edge_color: "#666666", edge_width: const('float', '3ff8000000000000'), text_color: "#333333", text_size: const('float', '4028000000000000'), font_family: "Arial, sans-serif", padding: const('float', '4034000000000000'), show_labels: 1, show_arrows: 1, arrow_size: const('float', '4020000000000000')}, node_styles: hnew(), edge_styles: hnew()}

fn oak_visualize::render::SvgRenderer::render_edge  [private]
  takes &oak_visualize::render::SvgRenderer; &mut alloc::string::String; &oak_visualize::layout::Edge
  let %1 = (hget((*$0).edge_styles, cat(<(*$2).from, "_", (*$2).to>)) is Some)
  let %2 = hget((*$0).edge_styles, cat(<(*$2).from, "_", (*$2).to>))@Some.0
  let %3 = cat(<"M ", display('d', (*$2).points[0].x), " ", display('d', (*$2).points[0].y)>)
  let %4 = display('d', case{!(%2.stroke_width is Some) => (*$0).config.edge_width; (%2.stroke_width is Some) => %2.stroke_width@Some.0})
  let %5 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", %2.stroke_color@Some.0, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\" opacity=\"", display('d', %2.opacity@Some.0), "\" class=\"edge ", %2.class_name@Some.0, "\"">)
  let %6 = display('d', op('fDiv', op('fAdd', (*$2).points[0].x, (*$2).points[(len((*$2).points) - 1)].x), const('float', '4000000000000000')))
  let %7 = display('d', op('fSub', op('fDiv', op('fAdd', (*$2).points[0].y, (*$2).points[(len((*$2).points) - 1)].y), const('float', '4000000000000000')), const('float', '4014000000000000')))
  let %8 = op('fMul', (*$0).config.text_size, const('float', '3fe999999999999a'))
  let %9 = display('d', case{!(%2.text_size is Some) => %8; (%2.text_size is Some) => %2.text_size@Some.0})
  let %10 = cat(<lv("L1", "v0"), "/>\n    <text x=\"", %6, "\" y=\"", %7, "\" text-anchor=\"middle\" dominant-baseline=\"central\" fill=\"", %2.text_color@Some.0, "\" font-size=\"", %9, "\" font-family=\"", (*$0).config.font_family, "\" class=\"label\">", (*$2).label@Some.0, "</text>\n">)
  let %11 = cat(<lv("L1", "v0"), " ", call "HashMap::iter"(%2.attributes)[n("L1")].0, "=\"", call "HashMap::iter"(%2.attributes)[n("L1")].1, "\"">)
  let %12 = cat(<lv("L1", "v0"), "/>\n    <text x=\"", %6, "\" y=\"", %7, "\" text-anchor=\"middle\" dominant-baseline=\"central\" fill=\"", (*$0).config.text_color, "\" font-size=\"", %9, "\" font-family=\"", (*$0).config.font_family, "\" class=\"label\">", (*$2).label@Some.0, "</text>\n">)
  let %13 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", %2.stroke_color@Some.0, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\" opacity=\"", display('d', %2.opacity@Some.0), "\"">)
  let %14 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", %2.stroke_color@Some.0, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\" class=\"edge ", %2.class_name@Some.0, "\"">)
  let %15 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", %2.stroke_color@Some.0, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\"">)
  let %16 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", %2.stroke_color@Some.0, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" opacity=\"", display('d', %2.opacity@Some.0), "\" class=\"edge ", %2.class_name@Some.0, "\"">)
  let %17 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", %2.stroke_color@Some.0, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" opacity=\"", display('d', %2.opacity@Some.0), "\"">)
  let %18 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", %2.stroke_color@Some.0, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" class=\"edge ", %2.class_name@Some.0, "\"">)
  let %19 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", %2.stroke_color@Some.0, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\"">)
  let %20 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\" opacity=\"", display('d', %2.opacity@Some.0), "\" class=\"edge ", %2.class_name@Some.0, "\"">)
  let %21 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\" opacity=\"", display('d', %2.opacity@Some.0), "\"">)
  let %22 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\" class=\"edge ", %2.class_name@Some.0, "\"">)
  let %23 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\"">)
  let %24 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" opacity=\"", display('d', %2.opacity@Some.0), "\" class=\"edge ", %2.class_name@Some.0, "\"">)
  let %25 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" opacity=\"", display('d', %2.opacity@Some.0), "\"">)
  let %26 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\" class=\"edge ", %2.class_name@Some.0, "\"">)
  let %27 = cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", %4, "\" fill=\"none\" class=\"edge\"">)
case
  if %1
  if (%2.stroke_color is Some)
  if (len((*$2).points) < 2)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %5
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") + 1 < len((*$2).points))
  loop L0 | v0 from %3
  then v0 := cat(<lv("L0", "v0"), " L ", display('d', (*$2).points[(n("L0") + 1)].x), " ", display('d', (*$2).points[(n("L0") + 1)].y)>)
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %5
  then v0 := %11
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %5
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %5
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %13
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %13
  then v0 := %11
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %13
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %13
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %14
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %14
  then v0 := %11
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %14
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %14
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %15
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %15
  then v0 := %11
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %15
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %15
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %16
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %16
  then v0 := %11
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %16
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %16
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %17
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %17
  then v0 := %11
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %17
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %17
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %18
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %18
  then v0 := %11
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %18
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %18
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %19
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %19
  then v0 := %11
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %19
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @0 | v0 from %3
  loop L1 | v0 from %19
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if (len((*$2).points) < 2)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %20
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %20
  then v0 := %11
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %20
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %20
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %21
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %21
  then v0 := %11
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %21
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %21
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %22
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %22
  then v0 := %11
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %22
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %22
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %23
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %23
  then v0 := %11
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %23
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %23
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %24
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %24
  then v0 := %11
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %24
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %24
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %25
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %25
  then v0 := %11
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %25
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %25
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %26
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %26
  then v0 := %11
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %26
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %26
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %27
  set $1 := %10
  ret new "core::result::Result" Ok{0: tup{}}
pass L1
  if (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %27
  then v0 := %11
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if ((*$2).label is Some)
  if not (%2.text_color is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %27
  set $1 := %12
  ret new "core::result::Result" Ok{0: tup{}}
case
  if %1
  if not (%2.stroke_color is Some)
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not (%2.opacity is Some)
  if not (%2.class_name is Some)
  if not (n("L1") < len(call "HashMap::iter"(%2.attributes)))
  if not ((*$2).label is Some)
  loop L0 @1 | v0 from %3
  loop L1 | v0 from %27
  set $1 := cat(<lv("L1", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not %1
  if (len((*$2).points) < 2)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not %1
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if ((*$2).label is Some)
  loop L0 @2 | v0 from %3
  set $1 := cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", display('d', (*$0).config.edge_width), "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\"/>\n    <text x=\"", %6, "\" y=\"", %7, "\" text-anchor=\"middle\" dominant-baseline=\"central\" fill=\"", (*$0).config.text_color, "\" font-size=\"", display('d', %8), "\" font-family=\"", (*$0).config.font_family, "\" class=\"label\">", (*$2).label@Some.0, "</text>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not %1
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if true((*$0).config.show_arrows)
  if not ((*$2).label is Some)
  loop L0 @2 | v0 from %3
  set $1 := cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", display('d', (*$0).config.edge_width), "\" fill=\"none\" class=\"edge\" marker-end=\"url(#arrowhead)\"/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not %1
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if ((*$2).label is Some)
  loop L0 @2 | v0 from %3
  set $1 := cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", display('d', (*$0).config.edge_width), "\" fill=\"none\" class=\"edge\"/>\n    <text x=\"", %6, "\" y=\"", %7, "\" text-anchor=\"middle\" dominant-baseline=\"central\" fill=\"", (*$0).config.text_color, "\" font-size=\"", display('d', %8), "\" font-family=\"", (*$0).config.font_family, "\" class=\"label\">", (*$2).label@Some.0, "</text>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not %1
  if not (len((*$2).points) < 2)
  if not (n("L0") + 1 < len((*$2).points))
  if not true((*$0).config.show_arrows)
  if not ((*$2).label is Some)
  loop L0 @2 | v0 from %3
  set $1 := cat(<(*$1), "    <path d=\"", lv("L0", "v0"), "\" stroke=\"", (*$0).config.edge_color, "\" stroke-width=\"", display('d', (*$0).config.edge_width), "\" fill=\"none\" class=\"edge\"/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}

fn oak_visualize::render::SvgRenderer::render_layout
  given oak_visualize::render::SvgRenderer::calculate_bounds
  given oak_visualize::render::SvgRenderer::render_edge
  given oak_visualize::render::SvgRenderer::render_node
  let %1 = op('fMul', const('float', '4000000000000000'), (*$0).config.padding)
  let %2 = display('d', op('fAdd', %1, call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1).size.width))
  let %3 = display('d', op('fAdd', %1, call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1).size.height))
  let %4 = display('d', op('fSub', (*$0).config.padding, call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1).origin.x))
  let %5 = display('d', op('fSub', (*$0).config.padding, call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1).origin.y))
  let %6 = cat(<"<svg width=\"", %2, "\" height=\"", %3, "\" xmlns=\"http://www.w3.org/2000/svg\">\n  <rect width=\"100%\" height=\"100%\" fill=\"", (*$0).config.background_color, "\"/>\n  <defs>\n    <style>\n      .node { cursor: pointer }\n      .node:hover { opacity: 0.8 }\n      .edge { pointer-events: none }\n      .label { pointer-events: none; user-select: none }\n    </style>\n    <marker id=\"arrowhead\" markerWidth=\"", display('d', (*$0).config.arrow_size), "\" markerHeight=\"", display('d', (*$0).config.arrow_size), "\" refX=\"", display('d', (*$0).config.arrow_size), "\" refY=\"", display('d', op('fDiv', (*$0).config.arrow_size, const('float', '4000000000000000'))), "\" orient=\"auto\">\n      <polygon points=\"0 0, ", display('d', (*$0).config.arrow_size), " ", display('d', (*$0).config.arrow_size), ", ", display('d', (*$0).config.arrow_size), " 0\" fill=\"", (*$0).config.edge_color, "\"/>\n    </marker>\n  </defs>\n  <g transform=\"translate(", %4, ", ", %5, ")\">\n">)
  let %7 = call "oak_visualize::render::SvgRenderer::render_edge"($0, rv(lv("L0", "v0")), rv((*$1).edges[n("L0")]))
  let %8 = call "oak_visualize::render::SvgRenderer::render_node"($0, rv(lv("L1", "v0")), call "HashMap::values"((*$1).nodes)[n("L1")])
  let %9 = cat(<"<svg width=\"", %2, "\" height=\"", %3, "\" xmlns=\"http://www.w3.org/2000/svg\">\n  <rect width=\"100%\" height=\"100%\" fill=\"", (*$0).config.background_color, "\"/>\n  <defs>\n    <style>\n      .node { cursor: pointer }\n      .node:hover { opacity: 0.8 }\n      .edge { pointer-events: none }\n      .label { pointer-events: none; user-select: none }\n    </style>\n  </defs>\n  <g transform=\"translate(", %4, ", ", %5, ")\">\n">)
case
  if true((*$0).config.show_arrows)
  if (len((*$1).edges) < n("L0") + 1)
  if (len(call "HashMap::values"((*$1).nodes)) < n("L1") + 1)
  loop L0 | v0 from %6
  loop L1 | v0 from lv("L0", "v0")
  do call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1)
  ret new "core::result::Result" Ok{0: cat(<lv("L1", "v0"), "  </g>\n</svg>">)}
pass L0
  if not (len((*$1).edges) < n("L0") + 1)
  if not (%7 is Err)
  loop L0 | v0 from %6
  do %7
  then v0 := post(1, %7)
pass L1
  if not (len(call "HashMap::values"((*$1).nodes)) < n("L1") + 1)
  if not (%8 is Err)
  loop L0 | v0 from %6
  loop L1 | v0 from lv("L0", "v0")
  do %8
  then v0 := post(1, %8)
case
  if true((*$0).config.show_arrows)
  if (len((*$1).edges) < n("L0") + 1)
  if not (len(call "HashMap::values"((*$1).nodes)) < n("L1") + 1)
  if (%8 is Err)
  loop L0 | v0 from %6
  loop L1 | v0 from lv("L0", "v0")
  do call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1)
  do %8
  ret new "core::result::Result" Err{0: %8@Err.0}
case
  if true((*$0).config.show_arrows)
  if not (len((*$1).edges) < n("L0") + 1)
  if (%7 is Err)
  loop L0 | v0 from %6
  do call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1)
  do %7
  ret new "core::result::Result" Err{0: %7@Err.0}
case
  if not true((*$0).config.show_arrows)
  if (len((*$1).edges) < n("L0") + 1)
  if (len(call "HashMap::values"((*$1).nodes)) < n("L1") + 1)
  loop L0 | v0 from %9
  loop L1 | v0 from lv("L0", "v0")
  do call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1)
  ret new "core::result::Result" Ok{0: cat(<lv("L1", "v0"), "  </g>\n</svg>">)}
pass L0
  if not (len((*$1).edges) < n("L0") + 1)
  if not (%7 is Err)
  loop L0 | v0 from %9
  do %7
  then v0 := post(1, %7)
pass L1
  if not (len(call "HashMap::values"((*$1).nodes)) < n("L1") + 1)
  if not (%8 is Err)
  loop L0 | v0 from %9
  loop L1 | v0 from lv("L0", "v0")
  do %8
  then v0 := post(1, %8)
case
  if not true((*$0).config.show_arrows)
  if (len((*$1).edges) < n("L0") + 1)
  if not (len(call "HashMap::values"((*$1).nodes)) < n("L1") + 1)
  if (%8 is Err)
  loop L0 | v0 from %9
  loop L1 | v0 from lv("L0", "v0")
  do call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1)
  do %8
  ret new "core::result::Result" Err{0: %8@Err.0}
case
  if not true((*$0).config.show_arrows)
  if not (len((*$1).edges) < n("L0") + 1)
  if (%7 is Err)
  loop L0 | v0 from %9
  do call "oak_visualize::render::SvgRenderer::calculate_bounds"($0, $1)
  do %7
  ret new "core::result::Result" Err{0: %7@Err.0}

fn oak_visualize::render::SvgRenderer::render_node  [private]
  takes &oak_visualize::render::SvgRenderer; &mut alloc::string::String; &oak_visualize::layout::PositionedNode
  let %1 = (hget((*$0).node_styles, (*$2).id)@Some.0.fill_color is Some)
  let %2 = (hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color is Some)
  let %3 = (hget((*$0).node_styles, (*$2).id)@Some.0.class_name is Some)
  let %4 = call "HashMap::iter"(hget((*$0).node_styles, (*$2).id)@Some.0.attributes)
  let %5 = (hget((*$0).node_styles, (*$2).id)@Some.0.text_color is Some)
  let %6 = (hget((*$0).node_styles, (*$2).id)@Some.0.stroke_width is Some)
  let %7 = display('d', case{!%6 => (*$0).config.node_stroke_width; %6 => hget((*$0).node_styles, (*$2).id)@Some.0.stroke_width@Some.0})
  let %8 = display('d', hget((*$0).node_styles, (*$2).id)@Some.0.opacity@Some.0)
  let %9 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.fill_color@Some.0, "\" stroke=\"", hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color@Some.0, "\" stroke-width=\"", %7, "\" class=\"node\" opacity=\"", %8, "\" class=\"node ", hget((*$0).node_styles, (*$2).id)@Some.0.class_name@Some.0, "\"">)
  let %10 = display('d', op('fAdd', (*$2).rect.origin.x, op('fDiv', (*$2).rect.size.width, const('float', '4000000000000000'))))
  let %11 = display('d', op('fAdd', (*$2).rect.origin.y, op('fDiv', (*$2).rect.size.height, const('float', '4000000000000000'))))
  let %12 = display('d', case{!(hget((*$0).node_styles, (*$2).id)@Some.0.text_size is Some) => (*$0).config.text_size; (hget((*$0).node_styles, (*$2).id)@Some.0.text_size is Some) => hget((*$0).node_styles, (*$2).id)@Some.0.text_size@Some.0})
  let %13 = cat(<lv("L0", "v0"), "/>\n    <text x=\"", %10, "\" y=\"", %11, "\" text-anchor=\"middle\" dominant-baseline=\"central\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.text_color@Some.0, "\" font-size=\"", %12, "\" font-family=\"", (*$0).config.font_family, "\" class=\"label\">", (*$2).label, "</text>\n">)
  let %14 = cat(<lv("L0", "v0"), " ", %4[n("L0")].0, "=\"", %4[n("L0")].1, "\"">)
  let %15 = cat(<lv("L0", "v0"), "/>\n    <text x=\"", %10, "\" y=\"", %11, "\" text-anchor=\"middle\" dominant-baseline=\"central\" fill=\"", (*$0).config.text_color, "\" font-size=\"", %12, "\" font-family=\"", (*$0).config.font_family, "\" class=\"label\">", (*$2).label, "</text>\n">)
  let %16 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.fill_color@Some.0, "\" stroke=\"", hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color@Some.0, "\" stroke-width=\"", %7, "\" class=\"node\" opacity=\"", %8, "\"">)
  let %17 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.fill_color@Some.0, "\" stroke=\"", hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color@Some.0, "\" stroke-width=\"", %7, "\" class=\"node\" class=\"node ", hget((*$0).node_styles, (*$2).id)@Some.0.class_name@Some.0, "\"">)
  let %18 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.fill_color@Some.0, "\" stroke=\"", hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color@Some.0, "\" stroke-width=\"", %7, "\" class=\"node\"">)
  let %19 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.fill_color@Some.0, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", %7, "\" class=\"node\" opacity=\"", %8, "\" class=\"node ", hget((*$0).node_styles, (*$2).id)@Some.0.class_name@Some.0, "\"">)
  let %20 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.fill_color@Some.0, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", %7, "\" class=\"node\" opacity=\"", %8, "\"">)
  let %21 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.fill_color@Some.0, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", %7, "\" class=\"node\" class=\"node ", hget((*$0).node_styles, (*$2).id)@Some.0.class_name@Some.0, "\"">)
  let %22 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", hget((*$0).node_styles, (*$2).id)@Some.0.fill_color@Some.0, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", %7, "\" class=\"node\"">)
  let %23 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color@Some.0, "\" stroke-width=\"", %7, "\" class=\"node\" opacity=\"", %8, "\" class=\"node ", hget((*$0).node_styles, (*$2).id)@Some.0.class_name@Some.0, "\"">)
  let %24 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color@Some.0, "\" stroke-width=\"", %7, "\" class=\"node\" opacity=\"", %8, "\"">)
  let %25 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color@Some.0, "\" stroke-width=\"", %7, "\" class=\"node\" class=\"node ", hget((*$0).node_styles, (*$2).id)@Some.0.class_name@Some.0, "\"">)
  let %26 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", hget((*$0).node_styles, (*$2).id)@Some.0.stroke_color@Some.0, "\" stroke-width=\"", %7, "\" class=\"node\"">)
  let %27 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", %7, "\" class=\"node\" opacity=\"", %8, "\" class=\"node ", hget((*$0).node_styles, (*$2).id)@Some.0.class_name@Some.0, "\"">)
  let %28 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", %7, "\" class=\"node\" opacity=\"", %8, "\"">)
  let %29 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", %7, "\" class=\"node\" class=\"node ", hget((*$0).node_styles, (*$2).id)@Some.0.class_name@Some.0, "\"">)
  let %30 = cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", %7, "\" class=\"node\"">)
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %9
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %9
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %9
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %9
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %16
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %16
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %16
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %16
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %17
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %17
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %17
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %17
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %18
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %18
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %18
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %18
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %19
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %19
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %19
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %19
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %20
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %20
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %20
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %20
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %21
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %21
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %21
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %21
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %22
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %22
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %22
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %22
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %23
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %23
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %23
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %23
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %24
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %24
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %24
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %24
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %25
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %25
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %25
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %25
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %26
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %26
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %26
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %26
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %27
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %27
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %27
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %27
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %28
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %28
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %28
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %28
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %29
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %29
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %29
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %29
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if %5
  loop L0 | v0 from %30
  set $1 := %13
  ret new "core::result::Result" Ok{0: tup{}}
pass L0
  if (n("L0") < len(%4))
  loop L0 | v0 from %30
  then v0 := %14
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if true((*$0).config.show_labels)
  if not %5
  loop L0 | v0 from %30
  set $1 := %15
  ret new "core::result::Result" Ok{0: tup{}}
case
  if (hget((*$0).node_styles, (*$2).id) is Some)
  if not %1
  if not %2
  if not (hget((*$0).node_styles, (*$2).id)@Some.0.opacity is Some)
  if not %3
  if not (n("L0") < len(%4))
  if not true((*$0).config.show_labels)
  loop L0 | v0 from %30
  set $1 := cat(<lv("L0", "v0"), "/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not (hget((*$0).node_styles, (*$2).id) is Some)
  if true((*$0).config.show_labels)
  set $1 := cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", display('d', (*$0).config.node_stroke_width), "\" class=\"node\"/>\n    <text x=\"", %10, "\" y=\"", %11, "\" text-anchor=\"middle\" dominant-baseline=\"central\" fill=\"", (*$0).config.text_color, "\" font-size=\"", display('d', (*$0).config.text_size), "\" font-family=\"", (*$0).config.font_family, "\" class=\"label\">", (*$2).label, "</text>\n">)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not (hget((*$0).node_styles, (*$2).id) is Some)
  if not true((*$0).config.show_labels)
  set $1 := cat(<(*$1), "    <rect x=\"", display('d', (*$2).rect.origin.x), "\" y=\"", display('d', (*$2).rect.origin.y), "\" width=\"", display('d', (*$2).rect.size.width), "\" height=\"", display('d', (*$2).rect.size.height), "\" fill=\"", (*$0).config.node_fill_color, "\" stroke=\"", (*$0).config.node_stroke_color, "\" stroke-width=\"", display('d', (*$0).config.node_stroke_width), "\" class=\"node\"/>\n">)
  ret new "core::result::Result" Ok{0: tup{}}

fn oak_visualize::render::SvgRenderer::set_edge_style
case
  set $0 := ((*$0) with {edge_styles: hins((*$0).edge_styles, $1, $2)})
  ret tup{}

fn oak_visualize::render::SvgRenderer::set_node_style
case
  set $0 := ((*$0) with {node_styles: hins((*$0).node_styles, $1, $2)})
  ret tup{}

fn oak_visualize::render::SvgRenderer::with_config
case
  ret ($0 with {config: $1})

fn oak_visualize::theme::VisualizationTheme::dark
case
  ret new "oak_visualize::theme::VisualizationTheme"{name: "Dark", background_color: "#1E1E1E", node: new "oak_visualize::theme::NodeTheme"{fill_color: "#2D2D30", stroke_color: "#3E3E42", stroke_width: const('float', '3f800000'), border_radius: const('float', '40800000'), shadow: new "oak_visualize::theme::ShadowConfig"{enabled: 1, color: "rgba(0, 0, 0, 0.3)", offset_x: const('float', '0'), offset_y: const('float', '40000000'), blur_radius: const('float', '40800000')}}, edge: new "oak_visualize::theme::EdgeTheme"{color: "#CCCCCC", width: const('float', '3fc00000'), style: "solid", arrow: new "oak_visualize::theme::ArrowConfig"{enabled: 1, size: const('float', '41000000'), arrow_type: "triangle"}}, text: new "oak_visualize::theme::TextTheme"{font_family: "Arial, sans-serif", font_size: const('float', '41400000'), color: "#CCCCCC", font_weight: "normal"}, highlight: new "oak_visualize::theme::HighlightTheme"{selected_color: "#0E639C", hover_color: "#1177BB", error_color: "#F14C4C", warning_color: "#FFCC02"}}

fn oak_visualize::theme::VisualizationTheme::github
case
  ret new "oak_visualize::theme::VisualizationTheme"{name: "GitHub", background_color: "#FFFFFF", node: new "oak_visualize::theme::NodeTheme"{fill_color: "#F6F8FA", stroke_color: "#D0D7DE", stroke_width: const('float', '3f800000'), border_radius: const('float', '40c00000'), shadow: new "oak_visualize::theme::ShadowConfig"{enabled: 1, color: "rgba(31, 35, 40, 0.04)", offset_x: const('float', '0'), offset_y: const('float', '3f800000'), blur_radius: const('float', '0')}}, edge: new "oak_visualize::theme::EdgeTheme"{color: "#656D76", width: const('float', '3f800000'), style: "solid", arrow: new "oak_visualize::theme::ArrowConfig"{enabled: 1, size: const('float', '40c00000'), arrow_type: "triangle"}}, text: new "oak_visualize::theme::TextTheme"{font_family: "-apple-system, BlinkMacSystemFont, Segoe UI, Helvetica, Arial, sans-serif", font_size: const('float', '41400000'), color: "#24292F", font_weight: "400"}, highlight: new "oak_visualize::theme::HighlightTheme"{selected_color: "#0969DA", hover_color: "#0860CA", error_color: "#CF222E", warning_color: "#9A6700"}}

fn oak_visualize::theme::VisualizationTheme::light
case
  ret new "oak_visualize::theme::VisualizationTheme"{name: "Light", background_color: "#FFFFFF", node: new "oak_visualize::theme::NodeTheme"{fill_color: "#F8F9FA", stroke_color: "#DEE2E6", stroke_width: const('float', '3f800000'), border_radius: const('float', '40800000'), shadow: new "oak_visualize::theme::ShadowConfig"{enabled: 1, color: "rgba(0, 0, 0, 0.1)", offset_x: const('float', '0'), offset_y: const('float', '40000000'), blur_radius: const('float', '40800000')}}, edge: new "oak_visualize::theme::EdgeTheme"{color: "#6C757D", width: const('float', '3fc00000'), style: "solid", arrow: new "oak_visualize::theme::ArrowConfig"{enabled: 1, size: const('float', '41000000'), arrow_type: "triangle"}}, text: new "oak_visualize::theme::TextTheme"{font_family: "Arial, sans-serif", font_size: const('float', '41400000'), color: "#212529", font_weight: "normal"}, highlight: new "oak_visualize::theme::HighlightTheme"{selected_color: "#007BFF", hover_color: "#0056B3", error_color: "#DC3545", warning_color: "#FFC107"}}

fn oak_visualize::theme::VisualizationTheme::one_dark_pro
case
  ret new "oak_visualize::theme::VisualizationTheme"{name: "One Dark Pro", background_color: "#282C34", node: new "oak_visualize::theme::NodeTheme"{fill_color: "#21252B", stroke_color: "#3E4451", stroke_width: const('float', '3f800000'), border_radius: const('float', '40c00000'), shadow: new "oak_visualize::theme::ShadowConfig"{enabled: 1, color: "rgba(0, 0, 0, 0.4)", offset_x: const('float', '0'), offset_y: const('float', '41000000'), blur_radius: const('float', '41c00000')}}, edge: new "oak_visualize::theme::EdgeTheme"{color: "#ABB2BF", width: const('float', '3fc00000'), style: "solid", arrow: new "oak_visualize::theme::ArrowConfig"{enabled: 1, size: const('float', '41000000'), arrow_type: "triangle"}}, text: new "oak_visualize::theme::TextTheme"{font_family: "SF Mono, Monaco, Inconsolata, Roboto Mono, monospace", font_size: const('float', '41400000'), color: "#ABB2BF", font_weight: "400"}, highlight: new "oak_visualize::theme::HighlightTheme"{selected_color: "#61AFEF", hover_color: "#528BFF", error_color: "#E06C75", warning_color: "#E5C07B"}}

fn oak_visualize::theme::VisualizationTheme::one_light
case
  ret new "oak_visualize::theme::VisualizationTheme"{name: "One Light", background_color: "#FAFAFA", node: new "oak_visualize::theme::NodeTheme"{fill_color: "#FFFFFF", stroke_color: "#E1E4E8", stroke_width: const('float', '3f800000'), border_radius: const('float', '40c00000'), shadow: new "oak_visualize::theme::ShadowConfig"{enabled: 1, color: "rgba(149, 157, 165, 0.2)", offset_x: const('float', '0'), offset_y: const('float', '41000000'), blur_radius: const('float', '41c00000')}}, edge: new "oak_visualize::theme::EdgeTheme"{color: "#586069", width: const('float', '3fc00000'), style: "solid", arrow: new "oak_visualize::theme::ArrowConfig"{enabled: 1, size: const('float', '41000000'), arrow_type: "triangle"}}, text: new "oak_visualize::theme::TextTheme"{font_family: "SF Pro Display, -apple-system, BlinkMacSystemFont, Segoe UI, Roboto, sans-serif", font_size: const('float', '41400000'), color: "#24292E", font_weight: "400"}, highlight: new "oak_visualize::theme::HighlightTheme"{selected_color: "#0366D6", hover_color: "#0256CC", error_color: "#D73A49", warning_color: "#F66A0A"}}

fn oak_visualize::theme::VisualizationTheme::to_render_config
case
  ret new "oak_visualize::render::RenderConfig"{canvas_width: const('float', '4089000000000000'), canvas_height: const('float', '4082c00000000000'), background_color: (*$0).background_color, node_fill_color: (*$0).node.fill_color, node_stroke_color: (*$0).node.stroke_color, node_stroke_width: op('cast:FloatToFloat', (*$0).node.stroke_width), edge_color: (*$0).edge.color, edge_width: op('cast:FloatToFloat', (*$0).edge.width), text_color: (*$0).text.color, text_size: op('cast:FloatToFloat', (*$0).text.font_size), font_family: (*$0).text.font_family, padding: const('float', '4034000000000000'), show_labels: 1, show_arrows: (*$0).edge.arrow.enabled, arrow_size: op('cast:FloatToFloat', (*$0).edge.arrow.size)}

fn oak_visualize::to_svg
case
  do call "oak_visualize::Visualize::visualize"($0)
  ret call "oak_visualize::Visualize::visualize"($0)
