fn <oak_core::tree::green_tree::GreenLeaf as core::clone::Clone>::clone
case
  ret (*$0)

fn <oak_core::tree::green_tree::GreenLeaf as core::cmp::PartialEq<oak_core::tree::green_tree::GreenLeaf>>::eq
case
  if ((*$0).kind === (*$1).kind)
  if ((*$0).length == (*$1).length)
  ret ((*$0).metadata === (*$1).metadata)
case
  if ((*$0).kind === (*$1).kind)
  if not ((*$0).length == (*$1).length)
  ret 0
case
  if not ((*$0).kind === (*$1).kind)
  ret 0

fn <oak_core::tree::green_tree::GreenNode as core::clone::Clone>::clone
case
  ret new "oak_core::tree::green_tree::GreenNode"{kind: (*$0).kind, text_len: (*$0).text_len, children: (*$0).children}

fn <oak_core::tree::green_tree::GreenNode as core::cmp::PartialEq<oak_core::tree::green_tree::GreenNode>>::eq
case
  if ((*$0).kind === (*$1).kind)
  if ((*$0).text_len == (*$1).text_len)
  ret ((*$0).children === (*$1).children)
case
  if ((*$0).kind === (*$1).kind)
  if not ((*$0).text_len == (*$1).text_len)
  ret 0
case
  if not ((*$0).kind === (*$1).kind)
  ret 0

fn <oak_core::tree::green_tree::GreenTree as core::clone::Clone>::clone
case
  ret (*$0)

fn <oak_core::tree::green_tree::GreenTree as core::cmp::PartialEq<oak_core::tree::green_tree::GreenTree>>::eq
case
  if ((*$0) is Leaf)
  if ((*$1) is Leaf)
  ret ((*$0)@Leaf.0 === (*$1)@Leaf.0)
case
  if ((*$0) is Leaf)
  if not ((*$1) is Leaf)
  ret 0
case
  if not ((*$0) is Leaf)
  if ((*$1) is Leaf)
  ret 0
case
  if not ((*$0) is Leaf)
  if not ((*$1) is Leaf)
  ret ((*$0)@Node.0 === (*$1)@Node.0)

fn oak_core::tree::green_tree::GreenLeaf::kind
case
  ret (*$0).kind

fn oak_core::tree::green_tree::GreenLeaf::length
case
  ret (*$0).length

fn oak_core::tree::green_tree::GreenLeaf::new
case
  ret new "oak_core::tree::green_tree::GreenLeaf"{kind: $0, length: $1, metadata: new "core::option::Option" None{}}

fn oak_core::tree::green_tree::GreenLeaf::with_metadata
case
  ret new "oak_core::tree::green_tree::GreenLeaf"{kind: $0, length: $1, metadata: $2}

fn oak_core::tree::green_tree::GreenNode::child_at
case
  if ($1 < len((*(*$0).children)))
  ret new "core::option::Option" Some{0: rv((*(*$0).children)[$1])}
case
  if not ($1 < len((*(*$0).children)))
  ret new "core::option::Option" None{}

fn oak_core::tree::green_tree::GreenNode::children
case
  ret (*$0).children

fn oak_core::tree::green_tree::GreenNode::children_count
case
  ret len((*(*$0).children))

fn oak_core::tree::green_tree::GreenNode::has_children
case
  ret !(len((*(*$0).children)) == 0)

fn oak_core::tree::green_tree::GreenNode::kind
case
  ret (*$0).kind

fn oak_core::tree::green_tree::GreenNode::new
case
  ret new "oak_core::tree::green_tree::GreenNode"{kind: $0, text_len: sum(j0, 0, len((*$1)), case{((*$1)[?j0] is Leaf) => (*$1)[?j0]@Leaf.0.length; !((*$1)[?j0] is Leaf) => (*(*$1)[?j0]@Node.0).text_len}), children: $1}

fn oak_core::tree::green_tree::GreenNode::text_len
case
  ret (*$0).text_len

fn oak_core::tree::green_tree::GreenTree::as_leaf
case
  if ((*$0) is Leaf)
  ret new "core::option::Option" Some{0: (*$0)@Leaf.0}
case
  if not ((*$0) is Leaf)
  ret new "core::option::Option" None{}

fn oak_core::tree::green_tree::GreenTree::as_node
case
  if ((*$0) is Leaf)
  ret new "core::option::Option" None{}
case
  if not ((*$0) is Leaf)
  ret new "core::option::Option" Some{0: (*$0)@Node.0}

fn oak_core::tree::green_tree::GreenTree::is_leaf
case
  if ((*$0) is Leaf)
  ret 1
case
  if not ((*$0) is Leaf)
  ret 0

fn oak_core::tree::green_tree::GreenTree::is_node
case
  if ((*$0) is Leaf)
  ret 0
case
  if not ((*$0) is Leaf)
  ret 1

fn oak_core::tree::green_tree::GreenTree::len
case
  if ((*$0) is Leaf)
  ret (*$0)@Leaf.0.length
case
  if not ((*$0) is Leaf)
  ret (*(*$0)@Node.0).text_len

fn oak_core::tree::metadata::TokenProvenance::from_source
case
  ret new "oak_core::tree::metadata::TokenProvenance"{parts: vpush(vnew(), new "oak_core::tree::metadata::ProvenancePart" Source{0: $0})}

fn oak_core::tree::metadata::TokenProvenance::from_synthesized
case
  ret new "oak_core::tree::metadata::TokenProvenance"{parts: vpush(vnew(), new "oak_core::tree::metadata::ProvenancePart" Synthesized{0: call "into"("alloc::string::String", $0)})}
