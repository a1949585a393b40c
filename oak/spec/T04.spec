fn <oak_core::visitor::PreOrder as core::iter::traits::iterator::Iterator>::next
  let %1 = new "core::option::Option" Some{0: (*$0).stack[(len((*$0).stack) - 1)]}
  let %2 = ((*$0).stack[(len((*$0).stack) - 1)]@Node.0.offset + (*(*$0).stack[(len((*$0).stack) - 1)]@Node.0.green).text_len)
  let %3 = (*(*(*$0).stack[(len((*$0).stack) - 1)]@Node.0.green).children)
  let %4 = (-(*%3[(lv("L0", "v2") - 1)]@Node.0).text_len + lv("L0", "v1"))
case
  if (len((*$0).stack) == 0)
  ret new "core::option::Option" None{}
case
  if not (len((*$0).stack) == 0)
  if ((*$0).stack[(len((*$0).stack) - 1)] is Leaf)
  set $0 := ((*$0) with {stack: vpop((*$0).stack)})
  ret %1
case
  if not (len((*$0).stack) == 0)
  if not ((*$0).stack[(len((*$0).stack) - 1)] is Leaf)
  if (lv("L0", "v2") < 1)
  loop L0 | v0 from vpop((*$0).stack) | v1 from %2 | v2 from len(%3)
  set $0 := ((*$0) with {stack: lv("L0", "v0")})
  ret %1
pass L0
  if not (lv("L0", "v2") < 1)
  if (%3[(lv("L0", "v2") - 1)] is Leaf)
  loop L0 | v0 from vpop((*$0).stack) | v1 from %2 | v2 from len(%3)
  then v0 := vpush(lv("L0", "v0"), new "oak_core::tree::red_tree::RedTree" Leaf{0: new "oak_core::tree::red_tree::RedLeaf"{kind: %3[(lv("L0", "v2") - 1)]@Leaf.0.kind, span: new "range"{start: (-%3[(lv("L0", "v2") - 1)]@Leaf.0.length + lv("L0", "v1")), end: lv("L0", "v1")}}})
  then v1 := (-%3[(lv("L0", "v2") - 1)]@Leaf.0.length + lv("L0", "v1"))
  then v2 := (lv("L0", "v2") - 1)
pass L0
  if not (lv("L0", "v2") < 1)
  if not (%3[(lv("L0", "v2") - 1)] is Leaf)
  loop L0 | v0 from vpop((*$0).stack) | v1 from %2 | v2 from len(%3)
  then v0 := vpush(lv("L0", "v0"), new "oak_core::tree::red_tree::RedTree" Node{0: new "oak_core::tree::red_tree::RedNode"{green: %3[(lv("L0", "v2") - 1)]@Node.0, offset: %4}})
  then v1 := %4
  then v2 := (lv("L0", "v2") - 1)

fn oak_core::visitor::PreOrder::new
case
  ret new "oak_core::visitor::PreOrder"{stack: vpush(vnew(), $0)}

fn oak_core::visitor::Visitor::walk_node
  let %1 = sum(j0, 0, n("L0"), case{!((*(*$1.green).children)[?j0] is Leaf) => (*(*(*$1.green).children)[?j0]@Node.0).text_len; ((*(*$1.green).children)[?j0] is Leaf) => (*(*$1.green).children)[?j0]@Leaf.0.length})
  let %2 = call "oak_core::visitor::Visitor::visit_node"(rv(lv("L0", "v0")), new "oak_core::tree::red_tree::RedNode"{green: (*(*$1.green).children)[n("L0")]@Node.0, offset: ($1.offset + %1)})
  let %3 = call "oak_core::visitor::Visitor::visit_token"(rv(lv("L0", "v0")), new "oak_core::tree::red_tree::RedLeaf"{kind: (*(*$1.green).children)[n("L0")]@Leaf.0.kind, span: new "range"{start: ($1.offset + %1), end: ($1.offset + %1 + (*(*$1.green).children)[n("L0")]@Leaf.0.length)}})
case
  if (len((*(*$1.green).children)) < n("L0") + 1)
  loop L0 | v0 from (*$0)
  set $0 := lv("L0", "v0")
  ret tup{}
pass L0
  if not (len((*(*$1.green).children)) < n("L0") + 1)
  if not ((*(*$1.green).children)[n("L0")] is Leaf)
  loop L0 | v0 from (*$0)
  do %2
  then v0 := post(0, %2)
pass L0
  if not (len((*(*$1.green).children)) < n("L0") + 1)
  if ((*(*$1.green).children)[n("L0")] is Leaf)
  loop L0 | v0 from (*$0)
  do %3
  then v0 := post(0, %3)
