//! Combining the matches of subqueries into ranked contexts.
use crate::common::*;
use crate::spatial::adjust_bbox_zoom;
use crate::stack::{arena_get, stackable, PhrasematchSubquery, StackableNode, StackableTree};
use crate::store::{might_be_slow, streaming, GridStore};
use indexmap::map::IndexMap;
use min_max_heap::MinMaxHeap;
use ordered_float::OrderedFloat;
use static_bushes::{KDBush, KDBushBuilder};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

/// a match of a subquery, weighted
pub fn entry_of(m: &MatchEntry, q: &PhrasematchSubquery, opts: &MatchOpts, key: u32) -> CoalesceEntry {
    let g = &m.grid_entry;
    CoalesceEntry {
        grid_entry: GridEntry { relev: q.weight * g.relev, score: g.score, x: g.x, y: g.y, id: g.id, source_phrase_hash: g.source_phrase_hash },
        matches_language: m.matches_language,
        idx: q.idx,
        tmp_id: ((q.idx as u32) << 25) + g.id,
        mask: q.mask,
        distance: m.distance,
        scoredist: m.scoredist,
        phrasematch_id: key,
    }
}
/// contexts of one feature, or with the parts in ascending order, count a little less
pub fn penalize(c: &mut CoalesceContext) {
    if c.entries.len() == 1 || c.entries[1].mask < c.entries[0].mask { c.relev -= 0.01; }
}

// ---- one subquery
/// best entry of each feature, out of a stream sorted best first
fn best_of_features<I: Iterator<Item = MatchEntry>>(q: &PhrasematchSubquery, opts: &MatchOpts, grids: I, key: u32) -> HashMap<u32, CoalesceEntry> {
    let enough = 80;
    let mut max_relevance: f64 = 0.;
    let mut previous_id: Option<u32> = None;
    let mut previous_relevance: f64 = 0.;
    let mut previous_scoredist: f64 = 0.;
    let mut min_scoredist = std::f64::MAX;
    let mut feature_count: usize = 0;
    let mut coalesced: HashMap<u32, CoalesceEntry> = HashMap::new();
    for m in grids {
        let e = entry_of(&m, q, opts, key);
        let (id, relev, scoredist) = (e.grid_entry.id, e.grid_entry.relev, e.scoredist);
        if previous_id == Some(id) && scoredist <= previous_scoredist { continue; }
        if feature_count > enough {
            if scoredist < min_scoredist { continue; }
            if relev < previous_relevance { break; }
        }
        if max_relevance - relev >= 0.25 { break; }
        if relev > max_relevance { max_relevance = relev; }
        let better = match coalesced.get(&id) {
            None => true,
            Some(old) => scoredist > old.scoredist && relev >= old.grid_entry.relev,
        };
        if better { coalesced.insert(id, e); }
        if previous_id != Some(id) { feature_count += 1; }
        if opts.proximity.is_none() && feature_count > enough { break; }
        if scoredist < min_scoredist { min_scoredist = scoredist; }
        previous_id = Some(id);
        previous_relevance = relev;
        previous_scoredist = scoredist;
    }
    coalesced
}
fn alone(e: CoalesceEntry) -> CoalesceContext { CoalesceContext { mask: e.mask, relev: e.grid_entry.relev, entries: vec![e] } }

pub fn single(q: &PhrasematchSubquery, opts: &MatchOpts) -> Result<Vec<CoalesceContext>, rocksdb::Error> {
    let grids = streaming(&q.store, &q.match_keys[0].key, opts, 80)?;
    let best = best_of_features(q, opts, grids, 0);
    let mut out: Vec<CoalesceContext> = best.iter().map(|(_, e)| alone(e.clone())).collect();
    out.sort_by(|a, b| {
        let (p, r) = (&a.entries[0], &b.entries[0]);
        let (g, h) = (&p.grid_entry, &r.grid_entry);
        OrderedFloat(b.relev).cmp(&OrderedFloat(a.relev))
            .then(OrderedFloat(r.scoredist).cmp(&OrderedFloat(p.scoredist)))
            .then(h.x.cmp(&g.x)).then(h.y.cmp(&g.y)).then(h.id.cmp(&g.id))
    });
    out.truncate(40);
    Ok(out)
}
pub fn tree_single<I: Iterator<Item = MatchEntry>>(q: &PhrasematchSubquery, opts: &MatchOpts, grids: I, key: u32) -> Result<impl Iterator<Item = CoalesceContext>, rocksdb::Error> {
    let mut coalesced = best_of_features(q, opts, grids, key);
    let mut ids: Vec<u32> = coalesced.keys().cloned().collect();
    ids.sort();
    Ok(ids.into_iter().map(move |id| alone(coalesced.remove(&id).unwrap())))
}

// ---- a stack of subqueries
pub fn multi(mut stack: Vec<PhrasematchSubquery>, opts: &MatchOpts) -> Result<Vec<CoalesceContext>, rocksdb::Error> {
    stack.sort_by_key(|q| (q.store.zoom, q.idx));
    let mut coalesced: HashMap<(u16, u16, u16), Vec<CoalesceContext>> = HashMap::new();
    let mut contexts: Vec<CoalesceContext> = Vec::new();
    let mut max_relevance: f64 = 0.;
    let mut zoom_adjusted_match_options = opts.clone();
    for (i, q) in stack.iter().enumerate() {
        let mut to_add_to_coalesced: HashMap<(u16, u16, u16), Vec<CoalesceContext>> = HashMap::new();
        // distinct zooms of the other subqueries, none finer than this one
        let mut zooms: Vec<u16> = Vec::new();
        for o in stack.iter() {
            if o.idx != q.idx && o.store.zoom <= q.store.zoom { zooms.push(o.store.zoom); }
        }
        zooms.dedup();
        if zoom_adjusted_match_options.zoom != q.store.zoom { zoom_adjusted_match_options = adjust_to_zoom(opts, q.store.zoom); }
        let grids = streaming(&q.store, &q.match_keys[0].key, &zoom_adjusted_match_options, 100_000)?;
        for m in grids.take(100_000) {
            let e = entry_of(&m, q, &zoom_adjusted_match_options, 0);
            let zxy = (q.store.zoom, m.grid_entry.x, m.grid_entry.y);
            let mut context_mask = e.mask;
            let mut context_relevance = e.grid_entry.relev;
            let mut entries = vec![e];
            for z in zooms.iter() {
                let scale: u16 = 1 << (q.store.zoom - *z);
                let above = (*z, entries[0].grid_entry.x / scale, entries[0].grid_entry.y / scale);
                if let Some(parents) = coalesced.get(&above) {
                    let mut prev_mask = 0;
                    let mut prev_relev: f64 = 0.;
                    for p in parents {
                        for pe in &p.entries {
                            if pe.mask == prev_mask && pe.grid_entry.relev > prev_relev {
                                entries.pop();
                                entries.push(pe.clone());
                                context_relevance -= prev_relev;
                                context_relevance += pe.grid_entry.relev;
                                prev_mask = pe.mask;
                                prev_relev = pe.grid_entry.relev;
                            } else if context_mask & pe.mask == 0 {
                                entries.push(pe.clone());
                                context_relevance += pe.grid_entry.relev;
                                context_mask |= pe.mask;
                                prev_mask = pe.mask;
                                prev_relev = pe.grid_entry.relev;
                            }
                        }
                    }
                }
            }
            if context_relevance > max_relevance { max_relevance = context_relevance; }
            if i == stack.len() - 1 {
                if entries.len() == 1 || entries[0].mask > entries[1].mask { context_relevance -= 0.01; }
                if max_relevance - context_relevance < 0.25 { contexts.push(CoalesceContext { entries, mask: context_mask, relev: context_relevance }); }
            } else if i == 0 || entries.len() > 1 {
                to_add_to_coalesced.entry(zxy).or_insert(Vec::new()).push(CoalesceContext { entries, mask: context_mask, relev: context_relevance });
            }
        }
        for (at, cs) in to_add_to_coalesced {
            match coalesced.get_mut(&at) {
                Some(old) => { old.extend(cs); }
                None => { coalesced.insert(at, cs); }
            }
        }
    }
    for (_, cs) in coalesced {
        for c in cs { if max_relevance - c.relev < 0.25 { contexts.push(c); } }
    }
    contexts.sort_by(|a, b| {
        let (p, r) = (&a.entries[0], &b.entries[0]);
        let (g, h) = (&p.grid_entry, &r.grid_entry);
        OrderedFloat(b.relev).cmp(&OrderedFloat(a.relev))
            .then(OrderedFloat(r.scoredist).cmp(&OrderedFloat(p.scoredist)))
            .then(p.idx.cmp(&r.idx))
            .then(h.x.cmp(&g.x)).then(h.y.cmp(&g.y)).then(h.id.cmp(&g.id))
    });
    Ok(contexts)
}
/// at most 40 contexts within 0.25 of the best, no two about the same feature
pub fn coalesce(stack: Vec<PhrasematchSubquery>, opts: &MatchOpts) -> Result<Vec<CoalesceContext>, rocksdb::Error> {
    if stack.is_empty() { return Ok(Vec::new()); }
    let all = if stack.len() == 1 { single(&stack[0], opts)? } else { multi(stack, opts)? };
    let mut out = Vec::new();
    if all.is_empty() { return Ok(out); }
    let top = all[0].relev;
    let mut sets: HashSet<u64> = HashSet::new();
    for c in all {
        if out.len() >= 40 || top - c.relev >= 0.25 { break; }
        if sets.insert(c.entries[0].tmp_id as u64) { out.push(c); }
    }
    Ok(out)
}

// ---- many subqueries at once
/// subqueries that differ in their match key only are one subquery with several match keys
pub fn collapse(all: Vec<PhrasematchSubquery>) -> Vec<PhrasematchSubquery> {
    let mut phrasematch_map: IndexMap<(OrderedFloat<f64>, u16, u32), PhrasematchSubquery> = IndexMap::new();
    for p in all {
        let same = (OrderedFloat(p.weight), p.idx, p.mask);
        match phrasematch_map.get_mut(&same) {
            Some(first) => { first.match_keys.push(p.match_keys[0].clone()); }
            None => { phrasematch_map.insert(same, p); }
        }
    }
    phrasematch_map.into_iter().map(|(_, p)| p).collect()
}

// ---- the tree of stacks, best nodes first
impl Ord for CoalesceContext { fn cmp(&self, o: &Self) -> Ordering { context_order(self, o) } }
impl PartialOrd for CoalesceContext { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl PartialEq for CoalesceContext { fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for CoalesceContext {}

/// partial stacks, to be found by where they are
pub struct TreeCoalesceState { contexts: Vec<CoalesceContext>, bush: KDBush<u16> }
pub fn tree_state(contexts: Vec<CoalesceContext>) -> TreeCoalesceState {
    let mut builder: KDBushBuilder<u16> = KDBushBuilder::new();
    for c in contexts.iter() { builder.add(&[c.entries[0].grid_entry.x, c.entries[0].grid_entry.y]); }
    TreeCoalesceState { bush: builder.finish(), contexts }
}
/// a node of the tree to work on
pub struct CoalesceStep<'a> {
    node: &'a StackableNode<'a>,
    prev_state: Option<Arc<TreeCoalesceState>>,
    prev_zoom: u16,
    match_opts: MatchOpts,
    possible_relev: f64,
    contains_prox: bool,
}
pub fn step_new<'a>(node: &'a StackableNode<'a>, prev_state: Option<Arc<TreeCoalesceState>>, prev_zoom: u16, opts: &MatchOpts, possible_relev: f64) -> CoalesceStep<'a> {
    let store = &node.phrasematch.unwrap().store;
    let match_opts = if opts.zoom != store.zoom { adjust_to_zoom(opts, store.zoom) } else { opts.clone() };
    let contains_prox = match match_opts.proximity {
        None => false,
        Some([x, y]) => store.bboxes.iter().any(|b| b[0] <= x && x <= b[2] && b[1] <= y && y <= b[3]),
    };
    CoalesceStep { node, prev_state, prev_zoom, match_opts, possible_relev, contains_prox }
}
/// promising nodes first, then nodes around the proximity point, then stores with better scores
pub fn step_order(a: &CoalesceStep, b: &CoalesceStep) -> Ordering {
    OrderedFloat(a.node.max_relev).cmp(&OrderedFloat(b.node.max_relev))
        .then(a.contains_prox.cmp(&b.contains_prox))
        .then(OrderedFloat(a.node.phrasematch.unwrap().store.max_score).cmp(&OrderedFloat(b.node.phrasematch.unwrap().store.max_score)))
}
impl Ord for CoalesceStep<'_> { fn cmp(&self, o: &Self) -> Ordering { step_order(self, o) } }
impl PartialOrd for CoalesceStep<'_> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl PartialEq for CoalesceStep<'_> { fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for CoalesceStep<'_> {}

struct KeyFetchStep { key_id: u32, subquery: PhrasematchSubquery, key: MatchKey, match_opts: MatchOpts, is_single: bool }
enum KeyFetchResult { Single(ConstrainedPriorityQueue<CoalesceContext>), Multi((u32, Vec<MatchEntry>)) }

/// what a node without parents and children contributes: the best 40 contexts of each key;
/// for other nodes, the matches of a key, each feature once per tile
fn fetch(k: &KeyFetchStep) -> Result<KeyFetchResult, rocksdb::Error> {
    if k.is_single {
        let mut step_contexts = queue_of(40);
        for c in tree_single(&k.subquery, &k.match_opts, streaming(&k.subquery.store, &k.key, &k.match_opts, 80)?, k.key_id)? { keep(&mut step_contexts, c); }
        return Ok(KeyFetchResult::Single(step_contexts));
    }
    let mut unique_ids = HashSet::new();
    let mut data = Vec::new();
    for m in streaming(&k.subquery.store, &k.key, &k.match_opts, 100_000)?.take(100_000) {
        if unique_ids.insert((m.grid_entry.x, m.grid_entry.y, m.grid_entry.id)) { data.push(m); }
    }
    Ok(KeyFetchResult::Multi((k.key_id, data)))
}
/// contexts a node gives on top of the partial stacks below it, and the nodes to go on with
fn extend<'a>(step: &CoalesceStep<'a>, tree: &'a StackableTree<'a>, opts: &MatchOpts, cache: &HashMap<u32, Vec<MatchEntry>>) -> (Vec<CoalesceContext>, Vec<CoalesceStep<'a>>) {
    let mut relev_so_far = 0.0;
    let q = step.node.phrasematch.unwrap();
    let scale: u16 = 1 << (q.store.zoom - step.prev_zoom);
    let mut phrasematch_contexts: Vec<CoalesceContext> = Vec::new();
    let mut state_contexts: Vec<CoalesceContext> = Vec::new();
    for k in q.match_keys.iter() {
        let grids = match cache.get(&k.id) { Some(d) => d, None => continue };
        let mut step_contexts = queue_of(40);
        match &step.prev_state {
            Some(below) => {
                for g in grids.iter() {
                    let e = entry_of(g, q, &step.match_opts, k.id);
                    for at in below.bush.exact_as_vec(g.grid_entry.x / scale, g.grid_entry.y / scale) {
                        let mut c = below.contexts[at].clone();
                        c.entries.insert(0, e.clone());
                        c.mask |= q.mask;
                        c.relev += e.grid_entry.relev;
                        if c.relev > relev_so_far { relev_so_far = c.relev; }
                        let mut weighted = c.clone();
                        penalize(&mut weighted);
                        keep(&mut step_contexts, weighted);
                        if !step.node.children.is_empty() { state_contexts.push(c); }
                    }
                }
            }
            None => {
                for g in grids.iter() {
                    let e = entry_of(g, q, &step.match_opts, k.id);
                    let c = CoalesceContext { mask: q.mask, relev: e.grid_entry.relev, entries: vec![e] };
                    if c.relev > relev_so_far { relev_so_far = c.relev; }
                    let mut weighted = c.clone();
                    penalize(&mut weighted);
                    keep(&mut step_contexts, weighted);
                    state_contexts.push(c);
                }
            }
        }
        phrasematch_contexts.extend(queue_items(step_contexts));
    }
    let mut next = Vec::new();
    if !state_contexts.is_empty() {
        let state = Arc::new(tree_state(state_contexts));
        let zoom = q.store.zoom;
        for i in step.node.children.iter() {
            if let Some(child) = arena_get(&tree.arena, *i) {
                let cq = child.phrasematch.unwrap();
                let boxes: Vec<[u16; 4]> = if cq.store.zoom == zoom { cq.store.bboxes.clone() } else { cq.store.bboxes.iter().map(|b| adjust_bbox_zoom(*b, cq.store.zoom, zoom)).collect() };
                if boxes.iter().any(|b| state.bush.search_range(b[0], b[1], b[2], b[3]).next().is_some()) {
                    next.push(step_new(child, Some(state.clone()), zoom, opts, relev_so_far + cq.weight));
                }
            }
        }
    }
    (phrasematch_contexts, next)
}
pub fn tree<'a>(tree: &'a StackableTree<'a>, opts: &MatchOpts) -> Result<Vec<CoalesceContext>, rocksdb::Error> {
    let mut contexts: ConstrainedPriorityQueue<CoalesceContext> = queue_of(800);
    let mut steps: MinMaxHeap<CoalesceStep<'a>> = MinMaxHeap::new();
    let mut data_cache: HashMap<u32, Vec<MatchEntry>> = HashMap::new();
    let (mut one_letter_range_count, mut one_word_range_count, mut one_word_high_zoom_range_count, mut all_high_zoom_range_count, mut all_high_zoom_count) = (0usize, 0usize, 0usize, 0usize, 0usize);
    for i in &tree.root.children {
        if let Some(n) = arena_get(&tree.arena, *i) { steps.push(step_new(n, None, 0, opts, n.phrasematch.unwrap().weight)); }
    }
    let mut complete = false;
    while steps.len() > 0 && !complete {
        let mut step_chunk = Vec::new();
        let mut keys = Vec::new();
        let mut unique_keys = HashSet::new();
        let mut added_in_this_chunk = 0;
        while added_in_this_chunk < 8 {
            let step = match steps.pop_max() { Some(s) => s, None => break };
            // nothing left can beat what there is
            if queue_size(&contexts) >= contexts.max_size && step.node.max_relev <= queue_worst(&contexts).unwrap().relev { complete = true; break; }
            let alone = step.prev_state.is_none() && step.node.children.is_empty();
            let q = step.node.phrasematch.unwrap();
            let mut enqueued_work_in_this_iter = false;
            for k in q.match_keys.iter() {
                if !alone && data_cache.contains_key(&k.id) { continue; }
                let key_opts = if k.nearby_only { nearby_only(&step.match_opts) } else { step.match_opts.clone() };
                let range = match k.key.match_phrase { MatchPhrase::Range { start, end } => end - start > 1, MatchPhrase::Exact(_) => false };
                let slow = might_be_slow(&q.store);
                if range && q.mask.count_ones() == 1 {
                    let so_far = match queue_best(&contexts) { Some(c) => c.relev, None => 0.0 };
                    if slow && step.node.children.is_empty() && step.possible_relev <= 0.75 * so_far { continue; }
                    if !unique_keys.contains(&(k.id, alone)) {
                        if k.phrase_length == 1 {
                            if one_letter_range_count >= 8 { continue; }
                            one_letter_range_count += 1;
                        }
                        if slow && !k.nearby_only {
                            if one_word_high_zoom_range_count >= 8 { continue; }
                            one_word_high_zoom_range_count += 1;
                        }
                        if one_word_range_count >= 40 { continue; }
                        one_word_range_count += 1;
                    }
                }
                if slow && !k.nearby_only {
                    if range {
                        if all_high_zoom_range_count >= 40 { continue; }
                        all_high_zoom_range_count += 1;
                    }
                    if all_high_zoom_count >= 600 { continue; }
                    all_high_zoom_count += 1;
                }
                if unique_keys.insert((k.id, alone)) {
                    enqueued_work_in_this_iter = true;
                    keys.push(KeyFetchStep { key_id: k.id, subquery: q.clone(), key: k.key.clone(), match_opts: key_opts, is_single: alone });
                }
            }
            if !alone { enqueued_work_in_this_iter = true; step_chunk.push(step); }
            if enqueued_work_in_this_iter { added_in_this_chunk += 1; }
        }
        for k in keys {
            match fetch(&k)? {
                KeyFetchResult::Single(cs) => { for c in queue_items(cs) { keep(&mut contexts, c); } }
                KeyFetchResult::Multi((id, data)) => { data_cache.insert(id, data); }
            }
        }
        for step in step_chunk {
            let (cs, next) = extend(&step, tree, opts, &data_cache);
            for c in cs { keep(&mut contexts, c); }
            for s in next { steps.push(s); }
        }
    }
    Ok(queue_sorted(contexts))
}
pub fn stack_and_coalesce(all: &Vec<PhrasematchSubquery>, opts: &MatchOpts) -> Result<Vec<CoalesceContext>, rocksdb::Error> {
    let c = collapse(all.to_vec());
    tree(&stackable(&c), opts)
}
