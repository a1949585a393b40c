fn oak_mcp::JsonRpcNotification::from_json
case
  if (call "serde_json::de::from_str"($0) is Err)
  do call "serde_json::de::from_str"($0)
  ret new "core::result::Result" Err{0: display('d', call "serde_json::de::from_str"($0)@Err.0)}
case
  if not (call "serde_json::de::from_str"($0) is Err)
  do call "serde_json::de::from_str"($0)
  ret new "core::result::Result" Ok{0: call "serde_json::de::from_str"($0)@Ok.0}

fn oak_mcp::JsonRpcRequest::from_json
case
  if (call "serde_json::de::from_str"($0) is Err)
  do call "serde_json::de::from_str"($0)
  ret new "core::result::Result" Err{0: display('d', call "serde_json::de::from_str"($0)@Err.0)}
case
  if not (call "serde_json::de::from_str"($0) is Err)
  do call "serde_json::de::from_str"($0)
  ret new "core::result::Result" Ok{0: call "serde_json::de::from_str"($0)@Ok.0}

fn oak_mcp::JsonRpcResponse::to_json
case
  if (call "serde_json::ser::to_string"($0) is Err)
  do call "serde_json::ser::to_string"($0)
  ret "{}"
case
  if not (call "serde_json::ser::to_string"($0) is Err)
  do call "serde_json::ser::to_string"($0)
  ret call "serde_json::ser::to_string"($0)@Ok.0

fn oak_mcp::McpServer::handle_notification
case
  ret clo('oak_mcp::McpServer::handle_notification::{closure#0}', <$0, $1>)

fn oak_mcp::McpServer::handle_notification::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret tup{}

fn oak_mcp::McpServer::handle_request
case
  ret clo('oak_mcp::McpServer::handle_request::{closure#0}', <$0, $1>)

fn oak_mcp::McpServer::handle_request::{closure#0}  [private]
  takes core::future::ResumeTy
  given oak_mcp::McpServer::handle_tool_call
  let %1 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "protocolVersion", call "serde_json::value::to_value"("2024-11-05")@Ok.0)
  let %2 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "listChanged", new "serde_json::value::Value"{0: 0})
  let %3 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "tools", new "serde_json::value::Value"{0: post(0, %2)})
  let %4 = call "serde_json::map::Map::insert"(rv(post(0, %1)), "capabilities", new "serde_json::value::Value"{0: post(0, %3)})
  let %5 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "name", call "serde_json::value::to_value"("oak-mcp")@Ok.0)
  let %6 = call "serde_json::map::Map::insert"(rv(post(0, %5)), "version", call "serde_json::value::to_value"("0.0.1")@Ok.0)
  let %7 = call "serde_json::map::Map::insert"(rv(post(0, %4)), "serverInfo", new "serde_json::value::Value"{0: post(0, %6)})
  let %8 = call "serde_json::value::to_value"(rv(call "serde_json::de::from_str"("[\n  {\n    \"name\": \"hover\",\n    \"description\": \"Get hover information (type, documentation) at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"symbols\",\n    \"description\": \"Get all symbols (functions, structs, etc.) in a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"definition\",\n    \"description\": \"Find definition of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"references\",\n    \"description\": \"Find references of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"diagnostics\",\n    \"description\": \"Get diagnostics (errors, warnings) for a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"completion\",\n    \"description\": \"Get code completions at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"set_file_content\",\n    \"description\": \"Update or create a file with the given content\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"content\": {\n          \"type\": \"string\",\n          \"description\": \"The new content of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"content\"\n      ]\n    }\n  },\n  {\n    \"name\": \"search\",\n    \"description\": \"Perform semantic search across indexed files\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  },\n  {\n    \"name\": \"semantic_search\",\n    \"description\": \"Perform a semantic search across the codebase using natural language\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query (e.g., 'how to handle errors')\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  }\n]\n")@Ok.0))
  let %9 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "tools", %8@Ok.0)
  let %10 = call "serde_json::value::Value::get"(rv($0.1.params@Some.0), "name")
  let %11 = call "serde_json::value::Value::get"(rv($0.1.params@Some.0), "arguments")
  let %12 = (call "serde_json::value::Value::as_str"(%10@Some.0) is Some)
  let %13 = case{%12 => call "serde_json::value::Value::as_str"(%10@Some.0)@Some.0; !%12 => ""}
  let %14 = call "oak_mcp::McpServer::handle_tool_call"($0.0, %13, (*%11@Some.0))
  let %15 = call "serde_json::value::to_value"(rv(display('d', call "await"(%14)@Ok.0)))
  let %16 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "type", call "serde_json::value::to_value"("text")@Ok.0)
  let %17 = call "serde_json::map::Map::insert"(rv(post(0, %16)), "text", %15@Ok.0)
  let %18 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "content", new "serde_json::value::Value"{0: vpush(vnew(), new "serde_json::value::Value"{0: post(0, %17)})})
  let %19 = call "oak_mcp::McpServer::handle_tool_call"($0.0, %13, new "serde_json::value::Value"{})
  let %20 = call "serde_json::value::to_value"(rv(display('d', call "await"(%19)@Ok.0)))
  let %21 = call "serde_json::map::Map::insert"(rv(post(0, %16)), "text", %20@Ok.0)
  let %22 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "content", new "serde_json::value::Value"{0: vpush(vnew(), new "serde_json::value::Value"{0: post(0, %21)})})
  let %23 = call "oak_mcp::McpServer::handle_tool_call"($0.0, "", (*%11@Some.0))
  let %24 = call "serde_json::value::to_value"(rv(display('d', call "await"(%23)@Ok.0)))
  let %25 = call "serde_json::map::Map::insert"(rv(post(0, %16)), "text", %24@Ok.0)
  let %26 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "content", new "serde_json::value::Value"{0: vpush(vnew(), new "serde_json::value::Value"{0: post(0, %25)})})
  let %27 = call "oak_mcp::McpServer::handle_tool_call"($0.0, "", new "serde_json::value::Value"{})
  let %28 = new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" None{}, error: new "core::option::Option" Some{0: new "oak_mcp::JsonRpcError"{code: -32000, message: call "await"(%27)@Err.0, data: new "core::option::Option" None{}}}}
  let %29 = call "serde_json::value::to_value"(rv(display('d', call "await"(%27)@Ok.0)))
  let %30 = call "serde_json::map::Map::insert"(rv(post(0, %16)), "text", %29@Ok.0)
  let %31 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "content", new "serde_json::value::Value"{0: vpush(vnew(), new "serde_json::value::Value"{0: post(0, %30)})})
  let %32 = new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %31)}}, error: new "core::option::Option" None{}}
  let %33 = (call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name") is Some)
  let %34 = (call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments") is Some)
  let %35 = call "serde_json::value::Value::as_str"(call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")@Some.0)
  let %36 = (*call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")@Some.0)
  let %37 = call "oak_mcp::McpServer::handle_tool_call"($0.0, case{!(%35 is Some) => ""; (%35 is Some) => %35@Some.0}, %36)
  let %38 = call "serde_json::value::to_value"(rv(display('d', call "await"(%37)@Ok.0)))
  let %39 = call "serde_json::map::Map::insert"(rv(post(0, %16)), "text", %38@Ok.0)
  let %40 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "content", new "serde_json::value::Value"{0: vpush(vnew(), new "serde_json::value::Value"{0: post(0, %39)})})
  let %41 = call "oak_mcp::McpServer::handle_tool_call"($0.0, case{!(%35 is Some) => ""; (%35 is Some) => %35@Some.0}, new "serde_json::value::Value"{})
  let %42 = call "serde_json::value::to_value"(rv(display('d', call "await"(%41)@Ok.0)))
  let %43 = call "serde_json::map::Map::insert"(rv(post(0, %16)), "text", %42@Ok.0)
  let %44 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "content", new "serde_json::value::Value"{0: vpush(vnew(), new "serde_json::value::Value"{0: post(0, %43)})})
  let %45 = call "await"(call "oak_mcp::McpServer::handle_tool_call"($0.0, "", %36))
  let %46 = call "serde_json::value::to_value"(rv(display('d', %45@Ok.0)))
  let %47 = call "serde_json::map::Map::insert"(rv(post(0, %16)), "text", %46@Ok.0)
  let %48 = call "serde_json::map::Map::insert"(rv(call "serde_json::map::Map::new"()), "content", new "serde_json::value::Value"{0: vpush(vnew(), new "serde_json::value::Value"{0: post(0, %47)})})
case
  if ("initialize" === $0.1.method)
  if (call "serde_json::value::to_value"("2024-11-05") is Err)
  panics
case
  if ("initialize" === $0.1.method)
  if not (call "serde_json::value::to_value"("2024-11-05") is Err)
  if (call "serde_json::value::to_value"("oak-mcp") is Err)
  panics
case
  if ("initialize" === $0.1.method)
  if not (call "serde_json::value::to_value"("2024-11-05") is Err)
  if not (call "serde_json::value::to_value"("oak-mcp") is Err)
  if (call "serde_json::value::to_value"("0.0.1") is Err)
  panics
case
  if ("initialize" === $0.1.method)
  if not (call "serde_json::value::to_value"("2024-11-05") is Err)
  if not (call "serde_json::value::to_value"("oak-mcp") is Err)
  if not (call "serde_json::value::to_value"("0.0.1") is Err)
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("2024-11-05")
  do %1
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do %2
  do %3
  do %4
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("oak-mcp")
  do %5
  do call "serde_json::value::to_value"("0.0.1")
  do %6
  do %7
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %7)}}, error: new "core::option::Option" None{}}
case
  if not ("initialize" === $0.1.method)
  if ("tools/list" === $0.1.method)
  if (call "serde_json::de::from_str"("[\n  {\n    \"name\": \"hover\",\n    \"description\": \"Get hover information (type, documentation) at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"symbols\",\n    \"description\": \"Get all symbols (functions, structs, etc.) in a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"definition\",\n    \"description\": \"Find definition of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"references\",\n    \"description\": \"Find references of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"diagnostics\",\n    \"description\": \"Get diagnostics (errors, warnings) for a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"completion\",\n    \"description\": \"Get code completions at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"set_file_content\",\n    \"description\": \"Update or create a file with the given content\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"content\": {\n          \"type\": \"string\",\n          \"description\": \"The new content of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"content\"\n      ]\n    }\n  },\n  {\n    \"name\": \"search\",\n    \"description\": \"Perform semantic search across indexed files\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  },\n  {\n    \"name\": \"semantic_search\",\n    \"description\": \"Perform a semantic search across the codebase using natural language\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query (e.g., 'how to handle errors')\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  }\n]\n") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if ("tools/list" === $0.1.method)
  if not (call "serde_json::de::from_str"("[\n  {\n    \"name\": \"hover\",\n    \"description\": \"Get hover information (type, documentation) at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"symbols\",\n    \"description\": \"Get all symbols (functions, structs, etc.) in a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"definition\",\n    \"description\": \"Find definition of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"references\",\n    \"description\": \"Find references of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"diagnostics\",\n    \"description\": \"Get diagnostics (errors, warnings) for a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"completion\",\n    \"description\": \"Get code completions at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"set_file_content\",\n    \"description\": \"Update or create a file with the given content\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"content\": {\n          \"type\": \"string\",\n          \"description\": \"The new content of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"content\"\n      ]\n    }\n  },\n  {\n    \"name\": \"search\",\n    \"description\": \"Perform semantic search across indexed files\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  },\n  {\n    \"name\": \"semantic_search\",\n    \"description\": \"Perform a semantic search across the codebase using natural language\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query (e.g., 'how to handle errors')\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  }\n]\n") is Err)
  if (%8 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if ("tools/list" === $0.1.method)
  if not (call "serde_json::de::from_str"("[\n  {\n    \"name\": \"hover\",\n    \"description\": \"Get hover information (type, documentation) at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"symbols\",\n    \"description\": \"Get all symbols (functions, structs, etc.) in a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"definition\",\n    \"description\": \"Find definition of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"references\",\n    \"description\": \"Find references of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"diagnostics\",\n    \"description\": \"Get diagnostics (errors, warnings) for a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"completion\",\n    \"description\": \"Get code completions at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"set_file_content\",\n    \"description\": \"Update or create a file with the given content\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"content\": {\n          \"type\": \"string\",\n          \"description\": \"The new content of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"content\"\n      ]\n    }\n  },\n  {\n    \"name\": \"search\",\n    \"description\": \"Perform semantic search across indexed files\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  },\n  {\n    \"name\": \"semantic_search\",\n    \"description\": \"Perform a semantic search across the codebase using natural language\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query (e.g., 'how to handle errors')\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  }\n]\n") is Err)
  if not (%8 is Err)
  do call "serde_json::de::from_str"("[\n  {\n    \"name\": \"hover\",\n    \"description\": \"Get hover information (type, documentation) at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"symbols\",\n    \"description\": \"Get all symbols (functions, structs, etc.) in a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"definition\",\n    \"description\": \"Find definition of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"references\",\n    \"description\": \"Find references of the symbol at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"diagnostics\",\n    \"description\": \"Get diagnostics (errors, warnings) for a file\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\"\n      ]\n    }\n  },\n  {\n    \"name\": \"completion\",\n    \"description\": \"Get code completions at a specific position\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"offset\": {\n          \"type\": \"integer\",\n          \"description\": \"Byte offset in the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"offset\"\n      ]\n    }\n  },\n  {\n    \"name\": \"set_file_content\",\n    \"description\": \"Update or create a file with the given content\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"uri\": {\n          \"type\": \"string\",\n          \"description\": \"The URI of the file\"\n        },\n        \"content\": {\n          \"type\": \"string\",\n          \"description\": \"The new content of the file\"\n        }\n      },\n      \"required\": [\n        \"uri\",\n        \"content\"\n      ]\n    }\n  },\n  {\n    \"name\": \"search\",\n    \"description\": \"Perform semantic search across indexed files\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  },\n  {\n    \"name\": \"semantic_search\",\n    \"description\": \"Perform a semantic search across the codebase using natural language\",\n    \"inputSchema\": {\n      \"type\": \"object\",\n      \"properties\": {\n        \"query\": {\n          \"type\": \"string\",\n          \"description\": \"The search query (e.g., 'how to handle errors')\"\n        },\n        \"limit\": {\n          \"type\": \"integer\",\n          \"description\": \"Maximum number of results to return\",\n          \"default\": 5\n        }\n      },\n      \"required\": [\n        \"query\"\n      ]\n    }\n  }\n]\n")
  do call "serde_json::map::Map::new"()
  do %8
  do %9
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %9)}}, error: new "core::option::Option" None{}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if (%10 is Some)
  if (%11 is Some)
  if (call "await"(%14) is Err)
  do %10
  do call "serde_json::value::Value::as_str"(%10@Some.0)
  do %11
  do %14
  do call "await"(%14)
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" None{}, error: new "core::option::Option" Some{0: new "oak_mcp::JsonRpcError"{code: -32000, message: call "await"(%14)@Err.0, data: new "core::option::Option" None{}}}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if (%10 is Some)
  if (%11 is Some)
  if not (call "await"(%14) is Err)
  if (call "serde_json::value::to_value"("text") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if (%10 is Some)
  if (%11 is Some)
  if not (call "await"(%14) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if (%15 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if (%10 is Some)
  if (%11 is Some)
  if not (call "await"(%14) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if not (%15 is Err)
  do %10
  do call "serde_json::value::Value::as_str"(%10@Some.0)
  do %11
  do %14
  do call "await"(%14)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("text")
  do %16
  do %15
  do %17
  do %18
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %18)}}, error: new "core::option::Option" None{}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if (%10 is Some)
  if not (%11 is Some)
  if (call "await"(%19) is Err)
  do %10
  do call "serde_json::value::Value::as_str"(%10@Some.0)
  do %11
  do %19
  do call "await"(%19)
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" None{}, error: new "core::option::Option" Some{0: new "oak_mcp::JsonRpcError"{code: -32000, message: call "await"(%19)@Err.0, data: new "core::option::Option" None{}}}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if (%10 is Some)
  if not (%11 is Some)
  if not (call "await"(%19) is Err)
  if (call "serde_json::value::to_value"("text") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if (%10 is Some)
  if not (%11 is Some)
  if not (call "await"(%19) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if (%20 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if (%10 is Some)
  if not (%11 is Some)
  if not (call "await"(%19) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if not (%20 is Err)
  do %10
  do call "serde_json::value::Value::as_str"(%10@Some.0)
  do %11
  do %19
  do call "await"(%19)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("text")
  do %16
  do %20
  do %21
  do %22
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %22)}}, error: new "core::option::Option" None{}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if not (%10 is Some)
  if (%11 is Some)
  if (call "await"(%23) is Err)
  do %10
  do %11
  do %23
  do call "await"(%23)
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" None{}, error: new "core::option::Option" Some{0: new "oak_mcp::JsonRpcError"{code: -32000, message: call "await"(%23)@Err.0, data: new "core::option::Option" None{}}}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if not (%10 is Some)
  if (%11 is Some)
  if not (call "await"(%23) is Err)
  if (call "serde_json::value::to_value"("text") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if not (%10 is Some)
  if (%11 is Some)
  if not (call "await"(%23) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if (%24 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if not (%10 is Some)
  if (%11 is Some)
  if not (call "await"(%23) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if not (%24 is Err)
  do %10
  do %11
  do %23
  do call "await"(%23)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("text")
  do %16
  do %24
  do %25
  do %26
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %26)}}, error: new "core::option::Option" None{}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if not (%10 is Some)
  if not (%11 is Some)
  if (call "await"(%27) is Err)
  do %10
  do %11
  do %27
  do call "await"(%27)
  ret %28
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if not (%10 is Some)
  if not (%11 is Some)
  if not (call "await"(%27) is Err)
  if (call "serde_json::value::to_value"("text") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if not (%10 is Some)
  if not (%11 is Some)
  if not (call "await"(%27) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if (%29 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if ($0.1.params is Some)
  if not (%10 is Some)
  if not (%11 is Some)
  if not (call "await"(%27) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if not (%29 is Err)
  do %10
  do %11
  do %27
  do call "await"(%27)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("text")
  do %16
  do %29
  do %30
  do %31
  ret %32
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if %33
  if %34
  if (call "await"(%37) is Err)
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")
  do %35
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")
  do %37
  do call "await"(%37)
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" None{}, error: new "core::option::Option" Some{0: new "oak_mcp::JsonRpcError"{code: -32000, message: call "await"(%37)@Err.0, data: new "core::option::Option" None{}}}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if %33
  if %34
  if not (call "await"(%37) is Err)
  if (call "serde_json::value::to_value"("text") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if %33
  if %34
  if not (call "await"(%37) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if (%38 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if %33
  if %34
  if not (call "await"(%37) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if not (%38 is Err)
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")
  do %35
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")
  do %37
  do call "await"(%37)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("text")
  do %16
  do %38
  do %39
  do %40
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %40)}}, error: new "core::option::Option" None{}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if %33
  if not %34
  if (call "await"(%41) is Err)
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")
  do %35
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")
  do %41
  do call "await"(%41)
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" None{}, error: new "core::option::Option" Some{0: new "oak_mcp::JsonRpcError"{code: -32000, message: call "await"(%41)@Err.0, data: new "core::option::Option" None{}}}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if %33
  if not %34
  if not (call "await"(%41) is Err)
  if (call "serde_json::value::to_value"("text") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if %33
  if not %34
  if not (call "await"(%41) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if (%42 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if %33
  if not %34
  if not (call "await"(%41) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if not (%42 is Err)
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")
  do %35
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")
  do %41
  do call "await"(%41)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("text")
  do %16
  do %42
  do %43
  do %44
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %44)}}, error: new "core::option::Option" None{}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if not %33
  if %34
  if (%45 is Err)
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")
  do call "oak_mcp::McpServer::handle_tool_call"($0.0, "", %36)
  do %45
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" None{}, error: new "core::option::Option" Some{0: new "oak_mcp::JsonRpcError"{code: -32000, message: %45@Err.0, data: new "core::option::Option" None{}}}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if not %33
  if %34
  if not (%45 is Err)
  if (call "serde_json::value::to_value"("text") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if not %33
  if %34
  if not (%45 is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if (%46 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if not %33
  if %34
  if not (%45 is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if not (%46 is Err)
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")
  do call "oak_mcp::McpServer::handle_tool_call"($0.0, "", %36)
  do %45
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("text")
  do %16
  do %46
  do %47
  do %48
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" Some{0: new "serde_json::value::Value"{0: post(0, %48)}}, error: new "core::option::Option" None{}}
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if not %33
  if not %34
  if (call "await"(%27) is Err)
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")
  do %27
  do call "await"(%27)
  ret %28
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if not %33
  if not %34
  if not (call "await"(%27) is Err)
  if (call "serde_json::value::to_value"("text") is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if not %33
  if not %34
  if not (call "await"(%27) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if (%29 is Err)
  panics
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if ("tools/call" === $0.1.method)
  if not ($0.1.params is Some)
  if not %33
  if not %34
  if not (call "await"(%27) is Err)
  if not (call "serde_json::value::to_value"("text") is Err)
  if not (%29 is Err)
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "name")
  do call "serde_json::value::Value::get"(rv(new "serde_json::value::Value"{}), "arguments")
  do %27
  do call "await"(%27)
  do call "serde_json::map::Map::new"()
  do call "serde_json::map::Map::new"()
  do call "serde_json::value::to_value"("text")
  do %16
  do %29
  do %30
  do %31
  ret %32
case
  if not ("initialize" === $0.1.method)
  if not ("tools/list" === $0.1.method)
  if not ("tools/call" === $0.1.method)
  ret new "oak_mcp::JsonRpcResponse"{jsonrpc: "2.0", id: $0.1.id, result: new "core::option::Option" None{}, error: new "core::option::Option" Some{0: new "oak_mcp::JsonRpcError"{code: -32601, message: cat(<"Method not found: ", $0.1.method>), data: new "core::option::Option" None{}}}}

fn oak_mcp::McpServer::handle_tool_call
case
  ret clo('oak_mcp::McpServer::handle_tool_call::{closure#0}', <$0, $1, $2>)

fn oak_mcp::McpServer::handle_tool_call::{closure#0}  [private]
  takes core::future::ResumeTy
  let %1 = (call "serde_json::value::Value::get"(rv($0.2), "uri") is Some)
  let %2 = call "serde_json::value::Value::as_str"(call "serde_json::value::Value::get"(rv($0.2), "uri")@Some.0)
  let %3 = (call "serde_json::value::Value::get"(rv($0.2), "offset") is Some)
  let %4 = call "serde_json::value::Value::as_u64"(call "serde_json::value::Value::get"(rv($0.2), "offset")@Some.0)
  let %5 = call "oak_lsp::service::LanguageService::hover"((*$0.0).service, %2@Some.0, new "range"{start: %4@Some.0, end: %4@Some.0})
  let %6 = call "serde_json::value::to_value"(rv(call "await"(%5)@Some.0.contents))
  let %7 = call "oak_lsp::service::LanguageService::document_symbols"((*$0.0).service, %2@Some.0)
  let %8 = call "oak_lsp::service::LanguageService::definition"((*$0.0).service, %2@Some.0, new "range"{start: %4@Some.0, end: %4@Some.0})
  let %9 = call "oak_lsp::service::LanguageService::references"((*$0.0).service, %2@Some.0, new "range"{start: %4@Some.0, end: %4@Some.0})
  let %10 = call "oak_lsp::service::LanguageService::diagnostics"((*$0.0).service, %2@Some.0)
  let %11 = call "oak_lsp::service::LanguageService::completion"((*$0.0).service, %2@Some.0, %4@Some.0)
  let %12 = (call "serde_json::value::Value::get"(rv($0.2), "query") is Some)
  let %13 = call "serde_json::value::Value::as_str"(call "serde_json::value::Value::get"(rv($0.2), "query")@Some.0)
  let %14 = (call "serde_json::value::Value::get"(rv($0.2), "limit") is Some)
  let %15 = call "serde_json::value::Value::as_u64"(call "serde_json::value::Value::get"(rv($0.2), "limit")@Some.0)
  let %16 = call "oak_semantic_search::SemanticSearch::search"((*$0.0).searcher@Some.0, %13@Some.0, case{!(%15 is Some) => 5; (%15 is Some) => %15@Some.0})
  let %17 = call "serde_json::value::to_value"(rv(call "await"(%16)@Ok.0))
  let %18 = call "oak_semantic_search::SemanticSearch::search"((*$0.0).searcher@Some.0, %13@Some.0, 5)
  let %19 = call "serde_json::value::to_value"(rv(call "await"(%18)@Ok.0))
case
  if ("hover" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if (%4 is Some)
  if (call "await"(%5) is Some)
  if (%6 is Err)
  panics
case
  if ("hover" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if (%4 is Some)
  if (call "await"(%5) is Some)
  if not (%6 is Err)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  do %5
  do call "await"(%5)
  do %6
  ret new "core::result::Result" Ok{0: %6@Ok.0}
case
  if ("hover" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if (%4 is Some)
  if not (call "await"(%5) is Some)
  if (call "serde_json::value::to_value"(rv("")) is Err)
  panics
case
  if ("hover" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if (%4 is Some)
  if not (call "await"(%5) is Some)
  if not (call "serde_json::value::to_value"(rv("")) is Err)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  do %5
  do call "await"(%5)
  do call "serde_json::value::to_value"(rv(""))
  ret new "core::result::Result" Ok{0: call "serde_json::value::to_value"(rv(""))@Ok.0}
case
  if ("hover" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if not (%4 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  ret new "core::result::Result" Err{0: "Missing offset"}
case
  if ("hover" === $0.1)
  if %1
  if (%2 is Some)
  if not %3
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  ret new "core::result::Result" Err{0: "Missing offset"}
case
  if ("hover" === $0.1)
  if %1
  if not (%2 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if ("hover" === $0.1)
  if not %1
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if ("symbols" === $0.1)
  if %1
  if (%2 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do %7
  do call "await"(%7)
  ret new "core::result::Result" Ok{0: new "serde_json::value::Value"{0: vnew()}}
case
  if not ("hover" === $0.1)
  if ("symbols" === $0.1)
  if %1
  if not (%2 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if ("symbols" === $0.1)
  if not %1
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if ("definition" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if (%4 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  do %8
  do call "await"(%8)
  ret new "core::result::Result" Ok{0: new "serde_json::value::Value"{0: vnew()}}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if ("definition" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if not (%4 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  ret new "core::result::Result" Err{0: "Missing offset"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if ("definition" === $0.1)
  if %1
  if (%2 is Some)
  if not %3
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  ret new "core::result::Result" Err{0: "Missing offset"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if ("definition" === $0.1)
  if %1
  if not (%2 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if ("definition" === $0.1)
  if not %1
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if ("references" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if (%4 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  do %9
  do call "await"(%9)
  ret new "core::result::Result" Ok{0: new "serde_json::value::Value"{0: vnew()}}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if ("references" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if not (%4 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  ret new "core::result::Result" Err{0: "Missing offset"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if ("references" === $0.1)
  if %1
  if (%2 is Some)
  if not %3
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  ret new "core::result::Result" Err{0: "Missing offset"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if ("references" === $0.1)
  if %1
  if not (%2 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if ("references" === $0.1)
  if not %1
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if ("diagnostics" === $0.1)
  if %1
  if (%2 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do %10
  do call "await"(%10)
  ret new "core::result::Result" Ok{0: new "serde_json::value::Value"{0: vnew()}}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if ("diagnostics" === $0.1)
  if %1
  if not (%2 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if ("diagnostics" === $0.1)
  if not %1
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if ("completion" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if (%4 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  do %11
  do call "await"(%11)
  ret new "core::result::Result" Ok{0: new "serde_json::value::Value"{0: vnew()}}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if ("completion" === $0.1)
  if %1
  if (%2 is Some)
  if %3
  if not (%4 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  do %4
  ret new "core::result::Result" Err{0: "Missing offset"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if ("completion" === $0.1)
  if %1
  if (%2 is Some)
  if not %3
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  do call "serde_json::value::Value::get"(rv($0.2), "offset")
  ret new "core::result::Result" Err{0: "Missing offset"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if ("completion" === $0.1)
  if %1
  if not (%2 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  do %2
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if ("completion" === $0.1)
  if not %1
  do call "serde_json::value::Value::get"(rv($0.2), "uri")
  ret new "core::result::Result" Err{0: "Missing uri"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if ((*$0.0).searcher is Some)
  if %12
  if (%13 is Some)
  if %14
  if (call "await"(%16) is Err)
  do call "serde_json::value::Value::get"(rv($0.2), "query")
  do %13
  do call "serde_json::value::Value::get"(rv($0.2), "limit")
  do %15
  do %16
  do call "await"(%16)
  ret new "core::result::Result" Err{0: display('d', call "await"(%16)@Err.0)}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if ((*$0.0).searcher is Some)
  if %12
  if (%13 is Some)
  if %14
  if not (call "await"(%16) is Err)
  if (%17 is Err)
  panics
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if ((*$0.0).searcher is Some)
  if %12
  if (%13 is Some)
  if %14
  if not (call "await"(%16) is Err)
  if not (%17 is Err)
  do call "serde_json::value::Value::get"(rv($0.2), "query")
  do %13
  do call "serde_json::value::Value::get"(rv($0.2), "limit")
  do %15
  do %16
  do call "await"(%16)
  do %17
  ret new "core::result::Result" Ok{0: %17@Ok.0}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if ((*$0.0).searcher is Some)
  if %12
  if (%13 is Some)
  if not %14
  if (call "await"(%18) is Err)
  do call "serde_json::value::Value::get"(rv($0.2), "query")
  do %13
  do call "serde_json::value::Value::get"(rv($0.2), "limit")
  do %18
  do call "await"(%18)
  ret new "core::result::Result" Err{0: display('d', call "await"(%18)@Err.0)}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if ((*$0.0).searcher is Some)
  if %12
  if (%13 is Some)
  if not %14
  if not (call "await"(%18) is Err)
  if (%19 is Err)
  panics
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if ((*$0.0).searcher is Some)
  if %12
  if (%13 is Some)
  if not %14
  if not (call "await"(%18) is Err)
  if not (%19 is Err)
  do call "serde_json::value::Value::get"(rv($0.2), "query")
  do %13
  do call "serde_json::value::Value::get"(rv($0.2), "limit")
  do %18
  do call "await"(%18)
  do %19
  ret new "core::result::Result" Ok{0: %19@Ok.0}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if ((*$0.0).searcher is Some)
  if %12
  if not (%13 is Some)
  do call "serde_json::value::Value::get"(rv($0.2), "query")
  do %13
  ret new "core::result::Result" Err{0: "Missing query"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if ((*$0.0).searcher is Some)
  if not %12
  do call "serde_json::value::Value::get"(rv($0.2), "query")
  ret new "core::result::Result" Err{0: "Missing query"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if ("semantic_search" === $0.1)
  if not ((*$0.0).searcher is Some)
  ret new "core::result::Result" Err{0: "Semantic search is not enabled"}
case
  if not ("hover" === $0.1)
  if not ("symbols" === $0.1)
  if not ("definition" === $0.1)
  if not ("references" === $0.1)
  if not ("diagnostics" === $0.1)
  if not ("completion" === $0.1)
  if not ("semantic_search" === $0.1)
  ret new "core::result::Result" Err{0: cat(<"Unknown tool: ", $0.1>)}

fn oak_mcp::McpServer::new
case
  ret new "oak_mcp::McpServer"{service: box($0), searcher: new "core::option::Option" None{}}

fn oak_mcp::McpServer::run
case
  ret clo('oak_mcp::McpServer::run::{closure#0}', <$0, $1, $2>)

fn oak_mcp::McpServer::run::{closure#0}  [private]
  takes core::future::ResumeTy
  given oak_mcp::JsonRpcNotification::from_json
  given oak_mcp::JsonRpcRequest::from_json
  given oak_mcp::JsonRpcResponse::to_json
  given oak_mcp::McpServer::handle_notification
  given oak_mcp::McpServer::handle_request
  let %1 = call "tokio::io::util::async_buf_read_ext::AsyncBufReadExt::read_line"(rv(lv("L0", "v1")), rv(""))
  let %2 = call "oak_mcp::JsonRpcRequest::from_json"(call "str::trim"(rv(post(1, %1))))
  let %3 = call "oak_mcp::JsonRpcNotification::from_json"(call "str::trim"(rv(post(1, %1))))
  let %4 = call "oak_mcp::McpServer::handle_notification"($0.0, %3@Ok.0)
  let %5 = call "await"(call "oak_mcp::McpServer::handle_request"($0.0, %2@Ok.0))
  let %6 = call "tokio::io::util::async_write_ext::AsyncWriteExt::write_all"(rv(lv("L0", "v0")), rv(call "oak_mcp::JsonRpcResponse::to_json"(rv(%5))))
  let %7 = call "tokio::io::util::async_write_ext::AsyncWriteExt::write_all"(rv(post(0, %6)), rv(new "[]"{0: 10}))
  let %8 = call "tokio::io::util::async_write_ext::AsyncWriteExt::flush"(rv(post(0, %7)))
case
  if (call "await"(%1) is Err)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  ret new "core::result::Result" Err{0: display('d', call "await"(%1)@Err.0)}
pass L0
  if not (call "await"(%1) is Err)
  if not (call "await"(%1)@Ok.0 < 1)
  if (len((*call "str::trim"(rv(post(1, %1))))) == 0)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  do call "str::trim"(rv(post(1, %1)))
  then v0 := lv("L0", "v0")
  then v1 := post(0, %1)
pass L0
  if not (call "await"(%1) is Err)
  if not (call "await"(%1)@Ok.0 < 1)
  if not (len((*call "str::trim"(rv(post(1, %1))))) == 0)
  if (%2 is Err)
  if (%3 is Err)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  do call "str::trim"(rv(post(1, %1)))
  do %2
  do %3
  then v0 := lv("L0", "v0")
  then v1 := post(0, %1)
pass L0
  if not (call "await"(%1) is Err)
  if not (call "await"(%1)@Ok.0 < 1)
  if not (len((*call "str::trim"(rv(post(1, %1))))) == 0)
  if (%2 is Err)
  if not (%3 is Err)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  do call "str::trim"(rv(post(1, %1)))
  do %2
  do %3
  do %4
  do call "await"(%4)
  then v0 := lv("L0", "v0")
  then v1 := post(0, %1)
pass L0
  if not (call "await"(%1) is Err)
  if not (call "await"(%1)@Ok.0 < 1)
  if not (len((*call "str::trim"(rv(post(1, %1))))) == 0)
  if not (%2 is Err)
  if not (call "await"(%6) is Err)
  if not (call "await"(%7) is Err)
  if not (call "await"(%8) is Err)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  do call "str::trim"(rv(post(1, %1)))
  do %2
  do call "oak_mcp::McpServer::handle_request"($0.0, %2@Ok.0)
  do %5
  do call "oak_mcp::JsonRpcResponse::to_json"(rv(%5))
  do %6
  do call "await"(%6)
  do %7
  do call "await"(%7)
  do %8
  do call "await"(%8)
  then v0 := post(0, %8)
  then v1 := post(0, %1)
case
  if not (call "await"(%1) is Err)
  if (call "await"(%1)@Ok.0 < 1)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not (call "await"(%1) is Err)
  if not (call "await"(%1)@Ok.0 < 1)
  if not (len((*call "str::trim"(rv(post(1, %1))))) == 0)
  if not (%2 is Err)
  if (call "await"(%6) is Err)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  do call "str::trim"(rv(post(1, %1)))
  do %2
  do call "oak_mcp::McpServer::handle_request"($0.0, %2@Ok.0)
  do %5
  do call "oak_mcp::JsonRpcResponse::to_json"(rv(%5))
  do %6
  do call "await"(%6)
  ret new "core::result::Result" Err{0: display('d', call "await"(%6)@Err.0)}
case
  if not (call "await"(%1) is Err)
  if not (call "await"(%1)@Ok.0 < 1)
  if not (len((*call "str::trim"(rv(post(1, %1))))) == 0)
  if not (%2 is Err)
  if not (call "await"(%6) is Err)
  if (call "await"(%7) is Err)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  do call "str::trim"(rv(post(1, %1)))
  do %2
  do call "oak_mcp::McpServer::handle_request"($0.0, %2@Ok.0)
  do %5
  do call "oak_mcp::JsonRpcResponse::to_json"(rv(%5))
  do %6
  do call "await"(%6)
  do %7
  do call "await"(%7)
  ret new "core::result::Result" Err{0: display('d', call "await"(%7)@Err.0)}
case
  if not (call "await"(%1) is Err)
  if not (call "await"(%1)@Ok.0 < 1)
  if not (len((*call "str::trim"(rv(post(1, %1))))) == 0)
  if not (%2 is Err)
  if not (call "await"(%6) is Err)
  if not (call "await"(%7) is Err)
  if (call "await"(%8) is Err)
  loop L0 | v0 from $0.2 | v1 from $0.1
  do %1
  do call "await"(%1)
  do call "str::trim"(rv(post(1, %1)))
  do %2
  do call "oak_mcp::McpServer::handle_request"($0.0, %2@Ok.0)
  do %5
  do call "oak_mcp::JsonRpcResponse::to_json"(rv(%5))
  do %6
  do call "await"(%6)
  do %7
  do call "await"(%7)
  do %8
  do call "await"(%8)
  ret new "core::result::Result" Err{0: display('d', call "await"(%8)@Err.0)}

fn oak_mcp::McpServer::with_searcher
case
  ret new "oak_mcp::McpServer"{service: $0.service, searcher: new "core::option::Option" Some{0: box($1)}}
