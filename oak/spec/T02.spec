fn <oak_core::tree::red_tree::RedChildren as core::iter::traits::iterator::Iterator>::next
  let %1 = ((*(*(*$0).node@Some.0.green).children)[(*$0).index] is Leaf)
  let %2 = ((*$0).offset + (*(*(*$0).node@Some.0.green).children)[(*$0).index]@Leaf.0.length)
case
  if ((*$0).node is Some)
  if ((*$0).index < len((*(*(*$0).node@Some.0.green).children)))
  if %1
  set $0 := ((*$0) with {index: ((*$0).index + 1), offset: %2})
  ret new "core::option::Option" Some{0: new "oak_core::tree::red_tree::RedTree" Leaf{0: new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*(*$0).node@Some.0.green).children)[(*$0).index]@Leaf.0.kind, span: new "range"{start: (*$0).offset, end: %2}}}}
case
  if ((*$0).node is Some)
  if ((*$0).index < len((*(*(*$0).node@Some.0.green).children)))
  if not %1
  set $0 := ((*$0) with {index: ((*$0).index + 1), offset: ((*$0).offset + (*(*(*(*$0).node@Some.0.green).children)[(*$0).index]@Node.0).text_len)})
  ret new "core::option::Option" Some{0: new "oak_core::tree::red_tree::RedTree" Node{0: new "oak_core::tree::red_tree::RedNode"{green: (*(*(*$0).node@Some.0.green).children)[(*$0).index]@Node.0, offset: (*$0).offset}}}
case
  if ((*$0).node is Some)
  if not ((*$0).index < len((*(*(*$0).node@Some.0.green).children)))
  ret new "core::option::Option" None{}
case
  if not ((*$0).node is Some)
  ret new "core::option::Option" None{}

fn <oak_core::tree::red_tree::RedLeaf as core::clone::Clone>::clone
case
  ret (*$0)

fn <oak_core::tree::red_tree::RedLeaf as core::cmp::PartialEq<oak_core::tree::red_tree::RedLeaf>>::eq
case
  if ((*$0).kind === (*$1).kind)
  ret ((*$0).span === (*$1).span)
case
  if not ((*$0).kind === (*$1).kind)
  ret 0

fn <oak_core::tree::red_tree::RedNode as core::clone::Clone>::clone
case
  ret (*$0)

fn <oak_core::tree::red_tree::RedNode as core::cmp::PartialEq<oak_core::tree::red_tree::RedNode>>::eq
case
  if ((*$0).green === (*$1).green)
  ret ((*$0).offset == (*$1).offset)
case
  if not ((*$0).green === (*$1).green)
  ret 0

fn <oak_core::tree::red_tree::RedTree as core::clone::Clone>::clone
case
  ret (*$0)

fn <oak_core::tree::red_tree::RedTree as core::cmp::PartialEq<oak_core::tree::red_tree::RedTree>>::eq
case
  if ((*$0) is Leaf)
  if ((*$1) is Leaf)
  ret ((*$0)@Leaf.0 === (*$1)@Leaf.0)
case
  if ((*$0) is Leaf)
  if not ((*$1) is Leaf)
  ret 0
case
  if not ((*$0) is Leaf)
  if ((*$1) is Leaf)
  ret 0
case
  if not ((*$0) is Leaf)
  if not ((*$1) is Leaf)
  ret ((*$0)@Node.0 === (*$1)@Node.0)

fn oak_core::tree::green_tree::GreenLeaf::length
case
  ret (*$0).length

fn oak_core::tree::green_tree::GreenNode::new
case
  ret new "oak_core::tree::green_tree::GreenNode"{kind: $0, text_len: sum(j0, 0, len((*$1)), case{((*$1)[?j0] is Leaf) => (*$1)[?j0]@Leaf.0.length; !((*$1)[?j0] is Leaf) => (*(*$1)[?j0]@Node.0).text_len}), children: $1}

fn oak_core::tree::green_tree::GreenNode::text_len
case
  ret (*$0).text_len

fn oak_core::tree::green_tree::GreenTree::len
case
  if ((*$0) is Leaf)
  ret (*$0)@Leaf.0.length
case
  if not ((*$0) is Leaf)
  ret (*(*$0)@Node.0).text_len

fn oak_core::tree::red_tree::RedChildren::empty
case
  ret new "oak_core::tree::red_tree::RedChildren"{node: new "core::option::Option" None{}, index: 0, offset: 0}

fn oak_core::tree::red_tree::RedNode::child_at
  let %1 = sum(j0, 0, $1, case{((*(*(*$0).green).children)[?j0] is Leaf) => (*(*(*$0).green).children)[?j0]@Leaf.0.length; !((*(*(*$0).green).children)[?j0] is Leaf) => (*(*(*(*$0).green).children)[?j0]@Node.0).text_len})
case
  if not ($1 < len((*(*(*$0).green).children)))
  panics
case
  if ($1 < len((*(*(*$0).green).children)))
  if ($1 < n("C0") + 1)
  if ((*(*(*$0).green).children)[$1] is Leaf)
  loop C0
  ret new "oak_core::tree::red_tree::RedTree" Leaf{0: new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*(*$0).green).children)[$1]@Leaf.0.kind, span: new "range"{start: (%1 + (*$0).offset), end: (%1 + (*$0).offset + (*(*(*$0).green).children)[$1]@Leaf.0.length)}}}
case
  if ($1 < len((*(*(*$0).green).children)))
  if ($1 < n("C0") + 1)
  if not ((*(*(*$0).green).children)[$1] is Leaf)
  loop C0
  ret new "oak_core::tree::red_tree::RedTree" Node{0: new "oak_core::tree::red_tree::RedNode"{green: (*(*(*$0).green).children)[$1]@Node.0, offset: (%1 + (*$0).offset)}}
case
  if ($1 < len((*(*(*$0).green).children)))
  if not ($1 < len((*(*(*$0).green).children)) + 1)
  if (len((*(*(*$0).green).children)) < n("C0") + 1)
  loop C0
  panics

fn oak_core::tree::red_tree::RedNode::child_at_offset
  let %1 = sum(j0, 0, n("C0"), case{((*(*(*$0).green).children)[?j0] is Leaf) => (*(*(*$0).green).children)[?j0]@Leaf.0.length; !((*(*(*$0).green).children)[?j0] is Leaf) => (*(*(*(*$0).green).children)[?j0]@Node.0).text_len})
  let %2 = (%1 + (*$0).offset + (*(*(*(*$0).green).children)[n("C0")]@Node.0).text_len < $1 + 1)
  let %3 = (%1 + (*$0).offset + (*(*(*$0).green).children)[n("C0")]@Leaf.0.length < $1 + 1)
case
  if ((*$0).offset < $1 + 1)
  if ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  ret new "core::option::Option" None{}
case
  if not ((*$0).offset < $1 + 1)
  ret new "core::option::Option" None{}
case
  if ((*$0).offset < $1 + 1)
  if not ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  if not (len((*(*(*$0).green).children)) < n("C0") + 1)
  if not ((*(*(*$0).green).children)[n("C0")] is Leaf)
  if not %2
  if (len((*(*(*$0).green).children)) < n("C0"))
  if (len((*(*(*$0).green).children)) < n("C1") + 1)
  loop C0
  loop C1 @0
  panics
case
  if ((*$0).offset < $1 + 1)
  if not ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  if not (len((*(*(*$0).green).children)) < n("C0") + 1)
  if not ((*(*(*$0).green).children)[n("C0")] is Leaf)
  if not %2
  if (n("C0") < n("C1") + 1)
  loop C0
  loop C1 @0
  ret new "core::option::Option" Some{0: new "oak_core::tree::red_tree::RedTree" Node{0: new "oak_core::tree::red_tree::RedNode"{green: (*(*(*$0).green).children)[n("C0")]@Node.0, offset: (%1 + (*$0).offset)}}}
case
  if ((*$0).offset < $1 + 1)
  if not ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  if not (len((*(*(*$0).green).children)) < n("C0") + 1)
  if ((*(*(*$0).green).children)[n("C0")] is Leaf)
  if not %3
  if (len((*(*(*$0).green).children)) < n("C0"))
  if (len((*(*(*$0).green).children)) < n("C1") + 1)
  loop C0
  loop C1 @1
  panics
case
  if ((*$0).offset < $1 + 1)
  if not ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  if not (len((*(*(*$0).green).children)) < n("C0") + 1)
  if ((*(*(*$0).green).children)[n("C0")] is Leaf)
  if not %3
  if (n("C0") < n("C1") + 1)
  loop C0
  loop C1 @1
  ret new "core::option::Option" Some{0: new "oak_core::tree::red_tree::RedTree" Leaf{0: new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*(*$0).green).children)[n("C0")]@Leaf.0.kind, span: new "range"{start: (%1 + (*$0).offset), end: (%1 + (*$0).offset + (*(*(*$0).green).children)[n("C0")]@Leaf.0.length)}}}}
case
  if ((*$0).offset < $1 + 1)
  if not ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  if (len((*(*(*$0).green).children)) < n("C0") + 1)
  loop C0
  ret new "core::option::Option" None{}

fn oak_core::tree::red_tree::RedNode::child_index_at_offset
  let %1 = sum(j0, 0, n("C0"), case{((*(*(*$0).green).children)[?j0] is Leaf) => (*(*(*$0).green).children)[?j0]@Leaf.0.length; !((*(*(*$0).green).children)[?j0] is Leaf) => (*(*(*(*$0).green).children)[?j0]@Node.0).text_len})
case
  if ((*$0).offset < $1 + 1)
  if ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  ret new "core::option::Option" None{}
case
  if ((*$0).offset < $1 + 1)
  if not ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  if (len((*(*(*$0).green).children)) < n("C0") + 1)
  loop C0
  ret new "core::option::Option" None{}
case
  if ((*$0).offset < $1 + 1)
  if not ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  if not (len((*(*(*$0).green).children)) < n("C0") + 1)
  if ((*(*(*$0).green).children)[n("C0")] is Leaf)
  if not (%1 + (*$0).offset + (*(*(*$0).green).children)[n("C0")]@Leaf.0.length < $1 + 1)
  loop C0
  ret new "core::option::Option" Some{0: n("C0")}
case
  if ((*$0).offset < $1 + 1)
  if not ((*$0).offset + (*(*$0).green).text_len < $1 + 1)
  if not (len((*(*(*$0).green).children)) < n("C0") + 1)
  if not ((*(*(*$0).green).children)[n("C0")] is Leaf)
  if not (%1 + (*$0).offset + (*(*(*(*$0).green).children)[n("C0")]@Node.0).text_len < $1 + 1)
  loop C0
  ret new "core::option::Option" Some{0: n("C0")}
case
  if not ((*$0).offset < $1 + 1)
  ret new "core::option::Option" None{}

fn oak_core::tree::red_tree::RedNode::children
case
  ret new "oak_core::tree::red_tree::RedChildren"{node: new "core::option::Option" Some{0: (*$0)}, index: 0, offset: (*$0).offset}

fn oak_core::tree::red_tree::RedNode::element_type
case
  ret (*(*$0).green).kind

fn oak_core::tree::red_tree::RedNode::green
case
  ret (*$0).green

fn oak_core::tree::red_tree::RedNode::kind
case
  ret call "into"("T", (*(*$0).green).kind)

fn oak_core::tree::red_tree::RedNode::leaf_at_offset
  let %1 = ($1 < (*lv("L0", "v0").green).text_len + lv("L0", "v0").offset)
  let %2 = sum(j0, 0, n("C0"), case{((*(*lv("L0", "v0").green).children)[?j0] is Leaf) => (*(*lv("L0", "v0").green).children)[?j0]@Leaf.0.length; !((*(*lv("L0", "v0").green).children)[?j0] is Leaf) => (*(*(*lv("L0", "v0").green).children)[?j0]@Node.0).text_len})
  let %3 = ($1 < %2 + (*(*(*lv("L0", "v0").green).children)[n("C0")]@Node.0).text_len + lv("L0", "v0").offset)
  let %4 = ($1 < %2 + (*(*lv("L0", "v0").green).children)[n("C0")]@Leaf.0.length + lv("L0", "v0").offset)
case
  if not ($1 < lv("L0", "v0").offset)
  if %1
  if (n("C0") < len((*(*lv("L0", "v0").green).children)))
  if not ((*(*lv("L0", "v0").green).children)[n("C0")] is Leaf)
  if %3
  if not (n("C0") < len((*(*lv("L0", "v0").green).children)) + 1)
  if not (n("C1") < len((*(*lv("L0", "v0").green).children)))
  loop L0 | v0 from (*$0)
  loop C0
  loop C1 @0
  panics
pass L0
  if not ($1 < lv("L0", "v0").offset)
  if %1
  if (n("C0") < len((*(*lv("L0", "v0").green).children)))
  if not ((*(*lv("L0", "v0").green).children)[n("C0")] is Leaf)
  if %3
  if (n("C0") < n("C1") + 1)
  loop L0 | v0 from (*$0)
  loop C0
  loop C1 @0
  then v0 := new "oak_core::tree::red_tree::RedNode"{green: (*(*lv("L0", "v0").green).children)[n("C0")]@Node.0, offset: (%2 + lv("L0", "v0").offset)}
case
  if not ($1 < lv("L0", "v0").offset)
  if %1
  if (n("C0") < len((*(*lv("L0", "v0").green).children)))
  if ((*(*lv("L0", "v0").green).children)[n("C0")] is Leaf)
  if %4
  if not (n("C0") < len((*(*lv("L0", "v0").green).children)) + 1)
  if not (n("C1") < len((*(*lv("L0", "v0").green).children)))
  loop L0 | v0 from (*$0)
  loop C0
  loop C1 @1
  panics
case
  if ($1 < lv("L0", "v0").offset)
  loop L0 | v0 from (*$0)
  ret new "core::option::Option" None{}
case
  if not ($1 < lv("L0", "v0").offset)
  if %1
  if (n("C0") < len((*(*lv("L0", "v0").green).children)))
  if ((*(*lv("L0", "v0").green).children)[n("C0")] is Leaf)
  if %4
  if (n("C0") < n("C1") + 1)
  loop L0 | v0 from (*$0)
  loop C0
  loop C1 @1
  ret new "core::option::Option" Some{0: new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*lv("L0", "v0").green).children)[n("C0")]@Leaf.0.kind, span: new "range"{start: (%2 + lv("L0", "v0").offset), end: (%2 + (*(*lv("L0", "v0").green).children)[n("C0")]@Leaf.0.length + lv("L0", "v0").offset)}}}
case
  if not ($1 < lv("L0", "v0").offset)
  if %1
  if not (n("C0") < len((*(*lv("L0", "v0").green).children)))
  loop L0 | v0 from (*$0)
  loop C0
  ret new "core::option::Option" None{}
case
  if not ($1 < lv("L0", "v0").offset)
  if not %1
  loop L0 | v0 from (*$0)
  ret new "core::option::Option" None{}

fn oak_core::tree::red_tree::RedNode::new
case
  ret new "oak_core::tree::red_tree::RedNode"{green: $0, offset: $1}

fn oak_core::tree::red_tree::RedNode::span
case
  ret new "range"{start: (*$0).offset, end: ((*$0).offset + (*(*$0).green).text_len)}

fn oak_core::tree::red_tree::RedTree::as_leaf
case
  if ((*$0) is Leaf)
  ret new "core::option::Option" Some{0: (*$0)@Leaf.0}
case
  if not ((*$0) is Leaf)
  ret new "core::option::Option" None{}

fn oak_core::tree::red_tree::RedTree::as_node
case
  if ((*$0) is Leaf)
  ret new "core::option::Option" None{}
case
  if not ((*$0) is Leaf)
  ret new "core::option::Option" Some{0: (*$0)@Node.0}

fn oak_core::tree::red_tree::RedTree::children
case
  if ((*$0) is Leaf)
  ret new "oak_core::tree::red_tree::RedChildren"{node: new "core::option::Option" None{}, index: 0, offset: 0}
case
  if not ((*$0) is Leaf)
  ret new "oak_core::tree::red_tree::RedChildren"{node: new "core::option::Option" Some{0: (*$0)@Node.0}, index: 0, offset: (*$0)@Node.0.offset}

fn oak_core::tree::red_tree::RedTree::kind
case
  if ((*$0) is Leaf)
  ret call "into"("T", (*$0)@Leaf.0.kind)
case
  if not ((*$0) is Leaf)
  ret call "into"("T", (*(*$0)@Node.0.green).kind)

fn oak_core::tree::red_tree::RedTree::span
case
  if ((*$0) is Leaf)
  ret (*$0)@Leaf.0.span
case
  if not ((*$0) is Leaf)
  ret new "range"{start: (*$0)@Node.0.offset, end: ((*$0)@Node.0.offset + (*(*$0)@Node.0.green).text_len)}

fn oak_core::tree::red_tree::RedTree::text
  let %1 = call "oak_core::source::Source::get_text_in"($1, (*$0)@Leaf.0.span)
  let %2 = call "oak_core::source::Source::get_text_in"($1, new "range"{start: (*$0)@Node.0.offset, end: ((*$0)@Node.0.offset + (*(*$0)@Node.0.green).text_len)})
case
  if ((*$0) is Leaf)
  do %1
  ret %1
case
  if not ((*$0) is Leaf)
  do %2
  ret %2
