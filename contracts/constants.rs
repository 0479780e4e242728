pub type NodeId = usize;
pub type EdgeId = usize;
pub type Weight = usize;

pub const INVALID_NODE: NodeId = std::usize::MAX;
pub const INVALID_EDGE: EdgeId = std::usize::MAX;
pub const WEIGHT_MAX: Weight = std::usize::MAX;
pub const WEIGHT_ZERO: Weight = 0;
