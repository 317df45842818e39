//! petgraph 0.6 spelled with the cached petgraph 0.8 (one signature differs).
pub use real::*;
pub mod algo {
    pub use real::algo::*;
    use real::visit::{IntoNeighborsDirected, NodeCount};
    pub fn all_simple_paths<C, G>(
        graph: G,
        from: G::NodeId,
        to: G::NodeId,
        min: usize,
        max: Option<usize>,
    ) -> impl Iterator<Item = C>
    where
        G: NodeCount + IntoNeighborsDirected,
        G::NodeId: Eq + std::hash::Hash,
        C: FromIterator<G::NodeId>,
    {
        type S = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;
        real::algo::all_simple_paths::<C, G, S>(graph, from, to, min, max)
    }
}
