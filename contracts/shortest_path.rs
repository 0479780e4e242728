use crate::constants::NodeId;
use crate::constants::Weight;
use crate::constants::WEIGHT_MAX;
use crate::constants::WEIGHT_ZERO;

#[derive(Debug, Clone)]
pub struct ShortestPath {
    source: NodeId,
    target: NodeId,
    weight: Weight,
    nodes: Vec<NodeId>,
}

/*@
impl vstd::std_specs::cmp::PartialEqSpecImpl for ShortestPath {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ShortestPath) -> bool { self.source == other.source && self.target == other.target && self.weight == other.weight }
}
@*/
impl PartialEq for ShortestPath {
    fn eq(&self, other: &ShortestPath) -> bool {
        self.source == other.source && self.target == other.target && self.weight == other.weight
    }
}

impl ShortestPath {
    pub fn new(source: NodeId, target: NodeId, weight: Weight, nodes: Vec<NodeId>) -> Self /*@
        ensures res.source == source, res.target == target, res.weight == weight, res.nodes == nodes, // [C02]
    @*/ {
        ShortestPath {
            source,
            target,
            weight,
            nodes,
        }
    }

    pub fn singular(node: NodeId) -> Self /*@
        ensures res.source == node, res.target == node, res.weight == 0, res.nodes@ == seq![node], // [C02]
    @*/ {
        /*@ broadcast use vstd::std_specs::vec::group_vec_axioms; @*/
        ShortestPath {
            source: node,
            target: node,
            weight: WEIGHT_ZERO,
            nodes: vec![node],
        }
    }

    pub fn none(source: NodeId, target: NodeId) -> Self /*@
        ensures res.source == source, res.target == target, res.weight == WEIGHT_MAX, res.nodes.len() == 0, // [C02]
    @*/ {
        ShortestPath {
            source,
            target,
            weight: WEIGHT_MAX,
            nodes: vec![],
        }
    }

    pub fn get_source(&self) -> NodeId /*@
        ensures res == self.source, // [C02]
    @*/ {
        self.source
    }

    pub fn get_target(&self) -> NodeId /*@
        ensures res == self.target, // [C02]
    @*/ {
        self.target
    }

    pub fn get_weight(&self) -> Weight /*@
        ensures res == self.weight, // [C02]
    @*/ {
        self.weight
    }

    pub fn get_nodes(&self) -> &Vec<NodeId> /*@
        ensures *res == self.nodes, // [C02]
    @*/ {
        &self.nodes
    }

    pub fn is_found(&self) -> bool /*@
        ensures res == (self.weight != WEIGHT_MAX), // [C02]
    @*/ {
        self.weight != WEIGHT_MAX
    }
}
