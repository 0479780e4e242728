use std::cmp::Ordering;

use crate::constants::NodeId;
use crate::constants::Weight;

#[derive(Eq, Copy, Clone, Debug)]
pub struct HeapItem {
    pub weight: Weight,
    pub node_id: NodeId,
}

impl HeapItem {
    pub fn new(weight: Weight, node_id: NodeId) -> HeapItem /*@
        ensures res.weight == weight, res.node_id == node_id, // [all]
    @*/ {
        HeapItem { weight, node_id }
    }
}

/*@
// the heap order: the smaller weight is the greater item, so that a max-heap pops the smallest weight
pub open spec fn hcmp(s: &HeapItem, other: &HeapItem) -> Ordering {
    if s.weight < other.weight { Ordering::Greater } else if s.weight == other.weight { Ordering::Equal } else { Ordering::Less }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for HeapItem {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &HeapItem) -> bool { self.weight == other.weight }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for HeapItem {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &HeapItem) -> Option<Ordering> { Some(hcmp(self, other)) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for HeapItem {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &HeapItem) -> Ordering {
        if self.weight < other.weight { Ordering::Greater } else if self.weight == other.weight { Ordering::Equal } else { Ordering::Less }
    }
}
impl Eq for HeapItem {}
pub proof fn lemma_heap_order()
    ensures vp_total_order::<HeapItem>(), // [C01]
{}
@*/

impl PartialOrd for HeapItem {
    fn partial_cmp(&self, other: &HeapItem) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for HeapItem {
    fn cmp(&self, other: &HeapItem) -> Ordering {
        self.weight.cmp(&other.weight).reverse()
    }
}

impl PartialEq for HeapItem {
    fn eq(&self, other: &HeapItem) -> bool {
        self.weight == other.weight
    }
}
