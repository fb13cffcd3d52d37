//! Which subqueries can be combined, as a tree of partial stacks, and how that tree is kept small.
use crate::common::*;
use crate::store::GridStore;
use fixedbitset::FixedBitSet;
use generational_arena::{Arena, Index as ArenaIndex};
use ordered_float::OrderedFloat;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone)]
pub struct PhrasematchSubquery {
    pub store: GridStore,
    pub idx: u16,
    pub non_overlapping_indexes: FixedBitSet,
    pub weight: f64,
    pub mask: u32,
    pub match_keys: Vec<MatchKeyWithId>,
}
pub struct StackableNode<'a> {
    pub phrasematch: Option<&'a PhrasematchSubquery>,
    pub children: Vec<ArenaIndex>,
    pub bmask: FixedBitSet,
    pub mask: u32,
    pub idx: u16,
    pub max_relev: f64,
    pub zoom: u16,
}
pub struct ArenaManager<'a> {
    arena: Arena<StackableNode<'a>>,
    relev_map: HashMap<OrderedFloat<f64>, (usize, Vec<ArenaIndex>)>,
    min_relev: OrderedFloat<f64>,
    total_leaves: usize,
    soft_max: usize,
}
pub struct StackableTree<'a> { pub root: StackableNode<'a>, pub arena: ArenaManager<'a> }
struct PhrasematchBin<'a> {
    phrasematches: Vec<&'a PhrasematchSubquery>,
    max_relev: OrderedFloat<f64>,
    max_relev_after_this: OrderedFloat<f64>,
}

pub fn is_leaf(n: &StackableNode) -> bool { n.children.is_empty() }
pub fn arena_new<'a>() -> ArenaManager<'a> {
    ArenaManager { arena: Arena::new(), relev_map: HashMap::new(), min_relev: OrderedFloat(std::f64::MAX), total_leaves: 0, soft_max: 2000 }
}
pub fn arena_get<'b, 'a>(m: &'b ArenaManager<'a>, i: ArenaIndex) -> Option<&'b StackableNode<'a>> { m.arena.get(i) }
pub fn arena_full(m: &ArenaManager) -> bool { m.total_leaves >= m.soft_max }

/// drop every node whose best relevance is the lowest one
pub fn arena_cull(m: &mut ArenaManager) {
    if let Some((leaves, nodes)) = m.relev_map.remove(&m.min_relev) {
        m.total_leaves -= leaves;
        for n in nodes { m.arena.remove(n); }
    }
    m.min_relev = match m.relev_map.keys().min() {
        Some(r) => *r,
        None => OrderedFloat(std::f64::MAX),
    };
}
/// keep a node unless the tree is full and the node is worse than everything in it; then drop the worst nodes
/// if the tree stays full without them
pub fn arena_add<'a>(m: &mut ArenaManager<'a>, node: StackableNode<'a>) -> Option<ArenaIndex> {
    let best = OrderedFloat(node.max_relev);
    let leaf = node.children.is_empty();
    let was_full = m.total_leaves >= m.soft_max;
    if was_full && best < m.min_relev { return None; }
    let at = m.arena.insert(node);
    let same = m.relev_map.entry(best).or_insert((0, Vec::new()));
    same.1.push(at);
    if leaf {
        same.0 += 1;
        m.total_leaves += 1;
    }
    if !was_full {
        if best < m.min_relev { m.min_relev = best; }
    } else if m.min_relev < best {
        let worst = m.relev_map.get(&m.min_relev).unwrap().0;
        if m.total_leaves - worst >= m.soft_max { arena_cull(m); }
    }
    Some(at)
}

/// may this subquery be added below a partial stack?
fn compatible(node: &StackableNode, p: &PhrasematchSubquery) -> bool {
    node.mask & p.mask == 0
        && !p.non_overlapping_indexes.contains(node.idx as usize)
        && !node.bmask.contains(p.idx as usize)
}
pub fn grow<'b, 'a: 'b>(bins: &'b Vec<PhrasematchBin<'a>>, current: Option<&'a PhrasematchSubquery>, bmask: FixedBitSet, mask: u32, idx: u16,
                        relev: f64, zoom: u16, first: usize, arena: &mut ArenaManager<'a>) -> StackableNode<'a> {
    let mut node = StackableNode { phrasematch: current, children: Vec::new(), bmask, mask, idx, max_relev: relev, zoom };
    for (i, bin) in bins.iter().enumerate().skip(first) {
        for p in bin.phrasematches.iter() {
            if !compatible(&node, p) { continue; }
            let total = relev + p.weight;
            if arena_full(arena) && total + *bin.max_relev_after_this < *arena.min_relev { continue; }
            let mut apart = node.bmask.clone();
            apart.union_with(&p.non_overlapping_indexes);
            let child = grow(bins, Some(p), apart, node.mask | p.mask, p.idx, total, p.store.zoom, i + 1, arena);
            let reach = child.max_relev;
            if let Some(at) = arena_add(arena, child) {
                node.children.push(at);
                if node.max_relev < reach { node.max_relev = reach; }
            }
        }
    }
    node
}
pub fn stackable<'a>(all: &'a Vec<PhrasematchSubquery>) -> StackableTree<'a> {
    let mut arena = arena_new();
    let mut binned_phrasematches: BTreeMap<u16, PhrasematchBin<'a>> = BTreeMap::new();
    for p in all {
        let bin = binned_phrasematches.entry(p.store.type_id).or_insert(PhrasematchBin { phrasematches: Vec::new(), max_relev: OrderedFloat(0.), max_relev_after_this: OrderedFloat(0.) });
        if p.weight > *bin.max_relev { bin.max_relev = OrderedFloat(p.weight); }
        bin.phrasematches.push(p);
    }
    let mut bins: Vec<PhrasematchBin<'a>> = binned_phrasematches.into_iter().map(|(_, mut b)| {
        b.phrasematches.sort_by(|p, q| OrderedFloat(q.weight).cmp(&OrderedFloat(p.weight)).then(p.idx.cmp(&q.idx)));
        b
    }).collect();
    let mut after = 0.;
    for b in bins.iter_mut().rev() {
        b.max_relev_after_this = OrderedFloat(after);
        after += *b.max_relev;
    }
    let root = grow(&bins, None, FixedBitSet::with_capacity(128), 0, 129, 0., 0, 0, &mut arena);
    StackableTree { root, arena }
}
