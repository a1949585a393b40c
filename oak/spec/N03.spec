fn <oak_semantic_search::ChunkCollector as oak_core::visitor::Visitor<L>>::visit_node
  let %1 = call "oak_core::language::ElementType::role"(rv((*$1.green).kind))
  let %2 = (call "oak_core::language::ElementRole::universal"(rv(%1)) is Statement)
  let %3 = call "oak_core::visitor::Visitor::walk_node"(rv(((*$0) with {chunks: vpush((*$0).chunks, new "oak_semantic_search::CodeChunk"{text: slice((*(*$0).source), $1.offset, ($1.offset + (*$1.green).text_len)), range_start: $1.offset, range_end: ($1.offset + (*$1.green).text_len), role: display('?', call "oak_core::language::ElementRole::universal"(rv(%1)))})})), $1)
  let %4 = (call "oak_core::language::ElementRole::universal"(rv(%1)) is Documentation)
  let %5 = (call "oak_core::language::ElementRole::universal"(rv(%1)) is Definition)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Root)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is None)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Error)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Embedded)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Value)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Call)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Expression)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if %2
  if ((*$1.green).text_len < 21)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if %2
  if not ((*$1.green).text_len < 21)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Name)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Detail)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is AttributeKey)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Attribute)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Metadata)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if %4
  if ((*$1.green).text_len < 21)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if %4
  if not ((*$1.green).text_len < 21)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Typing)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Reference)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Binding)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if %5
  if ((*$1.green).text_len < 21)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)
case
  if %5
  if not ((*$1.green).text_len < 21)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do %3
  set $0 := post(0, %3)
  ret %3
case
  if (call "oak_core::language::ElementRole::universal"(rv(%1)) is Container)
  do %1
  do call "oak_core::language::ElementRole::universal"(rv(%1))
  do call "oak_core::visitor::Visitor::walk_node"($0, $1)
  set $0 := post(0, call "oak_core::visitor::Visitor::walk_node"($0, $1))
  ret call "oak_core::visitor::Visitor::walk_node"($0, $1)

fn <oak_semantic_search::ChunkCollector as oak_core::visitor::Visitor<L>>::visit_token
case
  ret tup{}

fn <oak_semantic_search::NoSemanticSearch as oak_semantic_search::SemanticSearch>::search
case
  ret clo('<oak_semantic_search::NoSemanticSearch as oak_semantic_search::SemanticSearch>::search::{closure#0}', <$0, $1, $2>)

fn <oak_semantic_search::NoSemanticSearch as oak_semantic_search::SemanticSearch>::search::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::result::Result" Err{0: new "oak_core::errors::OakError"{kind: box(new "oak_core::errors::OakErrorKind" SemanticError{message: call "into"("alloc::string::String", "Semantic search is not enabled on this server")})}}

fn <oak_semantic_search::SemanticSearcher as oak_semantic_search::SemanticSearch>::search
case
  ret clo('<oak_semantic_search::SemanticSearcher as oak_semantic_search::SemanticSearch>::search::{closure#0}', <$0, $1, $2>)

fn <oak_semantic_search::SemanticSearcher as oak_semantic_search::SemanticSearch>::search::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::result::Result" Ok{0: vnew()}

fn oak_semantic_search::ChunkCollector::new  [private]
  takes &str
case
  ret new "oak_semantic_search::ChunkCollector"{source: $0, chunks: vnew(), _phantom: new "core::marker::PhantomData"{}}

fn oak_semantic_search::SemanticSearcher::index_code
case
  ret clo('oak_semantic_search::SemanticSearcher::index_code::{closure#0}', <$0, $1, $2, $3>)

fn oak_semantic_search::SemanticSearcher::index_code::{closure#0}  [private]
  takes core::future::ResumeTy
  given <oak_semantic_search::ChunkCollector as oak_core::visitor::Visitor<L>>::visit_node
  let %1 = call "<oak_semantic_search::ChunkCollector as oak_core::visitor::Visitor<L>>::visit_node"(rv(new "oak_semantic_search::ChunkCollector"{source: $0.2, chunks: vnew(), _phantom: new "core::marker::PhantomData"{}}), $0.1)
case
  if (len(post(0, %1).chunks) == 0)
  do %1
  ret new "core::result::Result" Ok{0: tup{}}
case
  if not (len(post(0, %1).chunks) == 0)
  do %1
  ret new "core::result::Result" Ok{0: tup{}}

fn oak_semantic_search::SemanticSearcher::new
case
  ret clo('oak_semantic_search::SemanticSearcher::new::{closure#0}', <$0>)

fn oak_semantic_search::SemanticSearcher::new::{closure#0}  [private]
  takes core::future::ResumeTy
case
  ret new "core::result::Result" Ok{0: new "oak_semantic_search::SemanticSearcher"{}}
