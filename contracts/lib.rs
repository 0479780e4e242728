#[macro_use]
extern crate log;

use serde::{Deserialize, Deserializer, Serialize, Serializer};

pub use crate::constants::*;
pub use crate::fast_graph::FastGraph;
pub use crate::fast_graph32::FastGraph32;
pub use crate::fast_graph_builder::FastGraphBuilder;
pub use crate::fast_graph_builder::Params;
pub use crate::fast_graph_builder::ParamsWithOrder;
pub use crate::input_graph::Edge;
pub use crate::input_graph::InputGraph;
pub use crate::path_calculator::PathCalculator;
pub use crate::shortest_path::ShortestPath;

mod constants;
#[cfg(test)]
mod dijkstra;
mod fast_graph;
mod fast_graph32;
mod fast_graph_builder;
#[cfg(test)]
mod floyd_warshall;
mod heap_item;
mod input_graph;
mod node_contractor;
mod path_calculator;
mod preparation_graph;
mod shortest_path;
mod valid_flags;
mod witness_search;
pub fn prepare(input_graph: &InputGraph) -> FastGraph /*@
    requires input_ok(*input_graph), vp_ok ==> input_graph.frozen,
    ensures input_graph.frozen, // [C09]
        prepared(res, *input_graph), // [C01][C02][C05][C07]
@*/ {
    FastGraphBuilder::build(input_graph)
}
pub fn prepare_with_params(input_graph: &InputGraph, params: &Params) -> FastGraph /*@
    requires input_ok(*input_graph), vp_ok ==> input_graph.frozen,
    ensures input_graph.frozen, // [C09]
        prepared(res, *input_graph), // [C01][C02][C05][C07]
@*/ {
    FastGraphBuilder::build_with_params(input_graph, params)
}
pub fn prepare_with_order(input_graph: &InputGraph, order: &[NodeId]) -> Result<FastGraph, String> /*@
    requires input_ok(*input_graph), order.len() == input_graph.num_nodes ==> distinct(order@),
        vp_ok ==> input_graph.frozen && (order.len() == input_graph.num_nodes ==> in_range(order@, input_graph.num_nodes as int)),
    ensures input_graph.frozen, // [C09]
        res is Err <==> order.len() != input_graph.num_nodes, // [C06]
        res is Ok ==> prepared(res->Ok_0, *input_graph), // [C01][C02][C05][C06][C07]
        res is Ok ==> forall|k: int| 0 <= k < order.len() ==> res->Ok_0.ranks@[#[trigger] order@[k] as int] == k, // [C07]
@*/ {
    FastGraphBuilder::build_with_order(input_graph, order)
}
pub fn prepare_with_order_with_params(
    input_graph: &InputGraph,
    order: &[NodeId],
    params: &ParamsWithOrder,
) -> Result<FastGraph, String> /*@
    requires input_ok(*input_graph), order.len() == input_graph.num_nodes ==> distinct(order@),
        vp_ok ==> input_graph.frozen && (order.len() == input_graph.num_nodes ==> in_range(order@, input_graph.num_nodes as int)),
    ensures input_graph.frozen, // [C09]
        res is Err <==> order.len() != input_graph.num_nodes, // [C06]
        res is Ok ==> prepared(res->Ok_0, *input_graph), // [C01][C02][C05][C06][C07]
        res is Ok ==> forall|k: int| 0 <= k < order.len() ==> res->Ok_0.ranks@[#[trigger] order@[k] as int] == k, // [C07]
@*/ {
    FastGraphBuilder::build_with_order_with_params(input_graph, order, params)
}
pub fn calc_path(fast_graph: &FastGraph, source: NodeId, target: NodeId) -> Option<ShortestPath> /*@
    requires fast_graph.ok(), vp_ok ==> source < fast_graph.num_nodes && target < fast_graph.num_nodes,
    ensures source < fast_graph.num_nodes, target < fast_graph.num_nodes, // [C13]
        res is None ==> forall|d: int| d < wmax() ==> !#[trigger] dle(fast_graph.base(), source, target, d), // [C01][C11]
        res is Some ==> res->0.weight < wmax() && forall|d: int| #[trigger] dle(fast_graph.base(), source, target, d) ==> res->0.weight <= d, // [C01][C11]
        res is Some ==> res->0.source == source && res->0.target == target && walk(fast_graph.base(), res->0.nodes@, res->0.weight as int) && res->0.nodes@[0] == source && res->0.nodes@.last() == target && res->0.nodes.len() >= 1, // [C02]
@*/ {
    let mut calc = PathCalculator::new(fast_graph.get_num_nodes());
    calc.calc_path(fast_graph, source, target)
}
pub fn calc_path_multiple_sources_and_targets(
    fast_graph: &FastGraph,
    sources: Vec<(NodeId, Weight)>,
    target: Vec<(NodeId, Weight)>,
) -> Option<ShortestPath> /*@
    requires fast_graph.ok(),
        vp_ok ==> sources.len() > 0 && target.len() > 0
            && (forall|i: int| 0 <= i < sources.len() ==> (#[trigger] sources@[i]).0 < fast_graph.num_nodes)
            && (forall|i: int| 0 <= i < target.len() ==> (#[trigger] target@[i]).0 < fast_graph.num_nodes),
    ensures sources.len() > 0, target.len() > 0, // [C13]
        forall|i: int| 0 <= i < sources.len() ==> (#[trigger] sources@[i]).0 < fast_graph.num_nodes, // [C13]
        forall|i: int| 0 <= i < target.len() ==> (#[trigger] target@[i]).0 < fast_graph.num_nodes, // [C13]
        res is None ==> forall|d: int| d < wmax() ==> !#[trigger] total(fast_graph.base(), sources@, target@, d), // [C03][C11]
        res is Some ==> res->0.weight < wmax() && forall|d: int| #[trigger] total(fast_graph.base(), sources@, target@, d) ==> res->0.weight <= d, // [C03][C11]
        res is Some ==> res->0.nodes.len() >= 1 && res->0.source == res->0.nodes@[0] && res->0.target == res->0.nodes@.last(), // [C02]
        res is Some ==> route(fast_graph.base(), sources@, target@, res->0.nodes@, res->0.weight as int), // [C02]
@*/ {
    let mut calc = PathCalculator::new(fast_graph.get_num_nodes());
    calc.calc_path_multiple_sources_and_targets(fast_graph, sources, target)
}
pub fn create_calculator(fast_graph: &FastGraph) -> PathCalculator /*@
    ensures res.wf(), res.num_nodes == fast_graph.num_nodes, // [C04]
@*/ {
    PathCalculator::new(fast_graph.get_num_nodes())
}
pub fn get_node_ordering(fast_graph: &FastGraph) -> Vec<NodeId> /*@
    requires fast_graph.ranks_ok(),
    ensures res.len() == fast_graph.num_nodes, // [C07]
        forall|i: int| 0 <= i < fast_graph.num_nodes ==> res@[#[trigger] fast_graph.ranks@[i] as int] == i, // [C07]
@*/ {
    fast_graph.get_node_ordering()
}
pub fn serialize_32<S: Serializer>(fg: &FastGraph, s: S) -> Result<S::Ok, S::Error> /*@
    requires vp_ok ==> gfits(*fg),
    ensures gfits(*fg), // [C10][C16]
        exists|h: FastGraph32| genc(*fg, h) && #[trigger] vp_ser(h, s, res), // [C16]
@*/ {
    FastGraph32::new(fg).serialize(s)
}
pub fn deserialize_32<'de, D: Deserializer<'de>>(d: D) -> Result<FastGraph, D::Error> /*@
    ensures exists|r: Result<FastGraph32, D::Error>| #[trigger] vp_des(d, r) && (match r {
            Ok(h) => res is Ok && gdec(h, res->Ok_0),
            Err(e) => res is Err,
        }), // [C16]
@*/ {
    let fg32 = <FastGraph32>::deserialize(d)?;
    Ok(fg32.convert_to_usize())
}

/*@
use crate::spec_graph::*;
use crate::spec_query::*;
use crate::fast_graph_builder::*;
use crate::fast_graph32::*;
@*/
