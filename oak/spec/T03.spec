fn oak_core::tree::cursor::Cursor::as_node
case
  if ((*$0).current is Leaf)
  ret new "core::option::Option" None{}
case
  if not ((*$0).current is Leaf)
  ret new "core::option::Option" Some{0: (*$0).current@Node.0}

fn oak_core::tree::cursor::Cursor::current
case
  ret (*$0).current

fn oak_core::tree::cursor::Cursor::end_offset
case
  if ((*$0).current is Leaf)
  ret ((*$0).current@Leaf.0.length + (*$0).offset)
case
  if not ((*$0).current is Leaf)
  ret ((*$0).offset + (*(*$0).current@Node.0).text_len)

fn oak_core::tree::cursor::Cursor::len
case
  if ((*$0).current is Leaf)
  ret (*$0).current@Leaf.0.length
case
  if not ((*$0).current is Leaf)
  ret (*(*$0).current@Node.0).text_len

fn oak_core::tree::cursor::Cursor::new
case
  ret new "oak_core::tree::cursor::Cursor"{current: new "oak_core::tree::green_tree::GreenTree" Node{0: $0}, offset: 0, stack: vnew()}

fn oak_core::tree::cursor::Cursor::offset
case
  ret (*$0).offset

fn oak_core::tree::cursor::Cursor::step
  let %1 = ((*$0).stack[(len((*$0).stack) - 1)].1 + 1 < len((*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)))
  let %2 = ((*$0) with {current: lv("L0", "v2"), offset: lv("L0", "v0"), stack: lv("L0", "v1")})
  let %3 = new "oak_core::tree::green_tree::GreenTree" Node{0: lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].0}
  let %4 = (*(*vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].0).children)
  let %5 = (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1 < len(%4))
  let %6 = ((*$0) with {current: %4[(vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1)], offset: ((*lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].0).text_len + lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2), stack: iset(vpop(lv("L0", "v1")), (len(lv("L0", "v1")) - 2), (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)] with {1: (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1)}))})
  let %7 = (*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)[((*$0).stack[(len((*$0).stack) - 1)].1 + 1)]
  let %8 = iset((*$0).stack, (len((*$0).stack) - 1), ((*$0).stack[(len((*$0).stack) - 1)] with {1: ((*$0).stack[(len((*$0).stack) - 1)].1 + 1)}))
case
  if ((*$0).current is Leaf)
  if (len((*$0).stack) == 0)
  ret 0
case
  if ((*$0).current is Leaf)
  if not (len((*$0).stack) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  loop L0 @0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := %2
  ret 0
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if (len(lv("L0", "v1")) == 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  then v0 := lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2
  then v1 := vpop(lv("L0", "v1"))
  then v2 := %3
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if not %5
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  then v0 := lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2
  then v1 := vpop(lv("L0", "v1"))
  then v2 := %3
case
  if ((*$0).current is Leaf)
  if not (len((*$0).stack) == 0)
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if %5
  loop L0 @0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := %6
  ret 1
case
  if ((*$0).current is Leaf)
  if not (len((*$0).stack) == 0)
  if %1
  set $0 := ((*$0) with {current: %7, offset: ((*$0).current@Leaf.0.length + (*$0).offset), stack: %8})
  ret 1
case
  if not ((*$0).current is Leaf)
  if not (len((*(*(*$0).current@Node.0).children)) == 0)
  set $0 := ((*$0) with {current: (*(*(*$0).current@Node.0).children)[0], stack: vpush((*$0).stack, tup{0: (*$0).current@Node.0, 1: 0, 2: (*$0).offset})})
  ret 1
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  if (len((*$0).stack) == 0)
  ret 0
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  if not (len((*$0).stack) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  loop L0 @1 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := %2
  ret 0
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  if not (len((*$0).stack) == 0)
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if %5
  loop L0 @1 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := %6
  ret 1
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  if not (len((*$0).stack) == 0)
  if %1
  set $0 := ((*$0) with {current: %7, offset: ((*$0).offset + (*(*$0).current@Node.0).text_len), stack: %8})
  ret 1

fn oak_core::tree::cursor::Cursor::step_into
case
  if ((*$0).current is Leaf)
  ret 0
case
  if not ((*$0).current is Leaf)
  if (len((*(*(*$0).current@Node.0).children)) == 0)
  ret 0
case
  if not ((*$0).current is Leaf)
  if not (len((*(*(*$0).current@Node.0).children)) == 0)
  set $0 := ((*$0) with {current: (*(*(*$0).current@Node.0).children)[0], stack: vpush((*$0).stack, tup{0: (*$0).current@Node.0, 1: 0, 2: (*$0).offset})})
  ret 1

fn oak_core::tree::cursor::Cursor::step_next
  let %1 = ((*$0).stack[(len((*$0).stack) - 1)].1 + 1 < len((*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)))
  let %2 = new "oak_core::tree::green_tree::GreenTree" Node{0: lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].0}
  let %3 = (*(*vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].0).children)
  let %4 = (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1 < len(%3))
  let %5 = (*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)[((*$0).stack[(len((*$0).stack) - 1)].1 + 1)]
  let %6 = iset((*$0).stack, (len((*$0).stack) - 1), ((*$0).stack[(len((*$0).stack) - 1)] with {1: ((*$0).stack[(len((*$0).stack) - 1)].1 + 1)}))
case
  if (len((*$0).stack) == 0)
  ret 0
case
  if not (len((*$0).stack) == 0)
  if not %1
  if (len(lv("L0", "v1")) == 0)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := ((*$0) with {current: lv("L0", "v2"), offset: lv("L0", "v0"), stack: lv("L0", "v1")})
  ret 0
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if (len(lv("L0", "v1")) == 1)
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  then v0 := lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2
  then v1 := vpop(lv("L0", "v1"))
  then v2 := %2
pass L0
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if not %4
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  then v0 := lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2
  then v1 := vpop(lv("L0", "v1"))
  then v2 := %2
case
  if not (len((*$0).stack) == 0)
  if not %1
  if not (len(lv("L0", "v1")) == 0)
  if not (len(lv("L0", "v1")) == 1)
  if %4
  loop L0 | v0 from (*$0).offset | v1 from (*$0).stack | v2 from (*$0).current
  set $0 := ((*$0) with {current: %3[(vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1)], offset: ((*lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].0).text_len + lv("L0", "v1")[(len(lv("L0", "v1")) - 1)].2), stack: iset(vpop(lv("L0", "v1")), (len(lv("L0", "v1")) - 2), (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)] with {1: (vpop(lv("L0", "v1"))[(len(lv("L0", "v1")) - 2)].1 + 1)}))})
  ret 1
case
  if not (len((*$0).stack) == 0)
  if %1
  if not ((*$0).current is Leaf)
  set $0 := ((*$0) with {current: %5, offset: ((*$0).offset + (*(*$0).current@Node.0).text_len), stack: %6})
  ret 1
case
  if not (len((*$0).stack) == 0)
  if %1
  if ((*$0).current is Leaf)
  set $0 := ((*$0) with {current: %5, offset: ((*$0).current@Leaf.0.length + (*$0).offset), stack: %6})
  ret 1

fn oak_core::tree::cursor::Cursor::step_out
case
  if (len((*$0).stack) == 0)
  ret 0
case
  if not (len((*$0).stack) == 0)
  set $0 := ((*$0) with {current: new "oak_core::tree::green_tree::GreenTree" Node{0: (*$0).stack[(len((*$0).stack) - 1)].0}, offset: (*$0).stack[(len((*$0).stack) - 1)].2, stack: vpop((*$0).stack)})
  ret 1

fn oak_core::tree::cursor::Cursor::step_over
  let %1 = ((*$0).stack[(len((*$0).stack) - 1)].1 + 1 < len((*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)))
  let %2 = (*(*(*$0).stack[(len((*$0).stack) - 1)].0).children)[((*$0).stack[(len((*$0).stack) - 1)].1 + 1)]
  let %3 = iset((*$0).stack, (len((*$0).stack) - 1), ((*$0).stack[(len((*$0).stack) - 1)] with {1: ((*$0).stack[(len((*$0).stack) - 1)].1 + 1)}))
case
  if (len((*$0).stack) == 0)
  ret 0
case
  if not (len((*$0).stack) == 0)
  if %1
  if ((*$0).current is Leaf)
  set $0 := ((*$0) with {current: %2, offset: ((*$0).current@Leaf.0.length + (*$0).offset), stack: %3})
  ret 1
case
  if not (len((*$0).stack) == 0)
  if %1
  if not ((*$0).current is Leaf)
  set $0 := ((*$0) with {current: %2, offset: ((*$0).offset + (*(*$0).current@Node.0).text_len), stack: %3})
  ret 1
case
  if not (len((*$0).stack) == 0)
  if not %1
  ret 0

fn oak_core::tree::green_tree::GreenLeaf::length
case
  ret (*$0).length

fn oak_core::tree::green_tree::GreenNode::new
case
  ret new "oak_core::tree::green_tree::GreenNode"{kind: $0, text_len: sum(j0, 0, len((*$1)), case{((*$1)[?j0] is Leaf) => (*$1)[?j0]@Leaf.0.length; !((*$1)[?j0] is Leaf) => (*(*$1)[?j0]@Node.0).text_len}), children: $1}

fn oak_core::tree::green_tree::GreenNode::text_len
case
  ret (*$0).text_len

fn oak_core::tree::green_tree::GreenTree::len
case
  if ((*$0) is Leaf)
  ret (*$0)@Leaf.0.length
case
  if not ((*$0) is Leaf)
  ret (*(*$0)@Node.0).text_len
