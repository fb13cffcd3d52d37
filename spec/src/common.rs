//! Keys, match options, ordering of contexts, bounded queue, relevance codes.
use byteorder::{BigEndian, ByteOrder};
use min_max_heap::MinMaxHeap;
use ordered_float::OrderedFloat;
use std::cmp::{Ordering, Reverse};

pub enum TypeMarker { SinglePhrase = 0, PrefixBin = 1 }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct GridKey { pub phrase_id: u32, pub lang_set: u128 }
#[derive(Clone)]
pub enum MatchPhrase { Exact(u32), Range { start: u32, end: u32 } }
#[derive(Clone)]
pub struct MatchKey { pub match_phrase: MatchPhrase, pub lang_set: u128 }
#[derive(Clone)]
pub struct MatchOpts { pub bbox: Option<[u16; 4]>, pub proximity: Option<[u16; 2]>, pub zoom: u16 }
#[derive(Clone)]
pub struct GridEntry { pub relev: f64, pub score: u8, pub x: u16, pub y: u16, pub id: u32, pub source_phrase_hash: u8 }
#[derive(Clone)]
pub struct MatchEntry { pub grid_entry: GridEntry, pub matches_language: bool, pub distance: f64, pub scoredist: f64 }
#[derive(Clone)]
pub struct CoalesceEntry {
    pub grid_entry: GridEntry,
    pub matches_language: bool,
    pub idx: u16,
    pub tmp_id: u32,
    pub mask: u32,
    pub distance: f64,
    pub scoredist: f64,
    pub phrasematch_id: u32,
}
#[derive(Clone)]
pub struct CoalesceContext { pub mask: u32, pub relev: f64, pub entries: Vec<CoalesceEntry> }
#[derive(Clone)]
pub struct MatchKeyWithId { pub key: MatchKey, pub nearby_only: bool, pub id: u32, pub phrase_length: usize }

// ---- database keys: marker, phrase id most significant byte first, language bytes without leading zeros
pub fn key_bytes(key: &GridKey, marker: TypeMarker, out: &mut Vec<u8>) -> Result<(), ()> {
    out.push(marker as u8);
    out.extend_from_slice(&key.phrase_id.to_be_bytes());
    if key.lang_set == std::u128::MAX {
        // every language: no bytes at all
    } else if key.lang_set == 0 {
        out.push(0);
    } else {
        let all = key.lang_set.to_be_bytes();
        out.extend(all.iter().skip_while(|b| **b == 0));
    }
    Ok(())
}
/// language set of a stored key
pub fn key_languages(key: &[u8]) -> u128 {
    let part = &key[5..];
    if part.is_empty() { return std::u128::MAX; }
    let mut full = [0u8; 16];
    full[16 - part.len()..].copy_from_slice(part);
    BigEndian::read_u128(&full)
}
pub fn key_phrase(key: &[u8]) -> u32 { BigEndian::read_u32(&key[1..]) }

pub fn scan_start(key: &MatchKey, marker: TypeMarker, out: &mut Vec<u8>) -> Result<(), ()> {
    let first = match key.match_phrase {
        MatchPhrase::Exact(id) => id,
        MatchPhrase::Range { start, end } => start,
    };
    out.push(marker as u8);
    out.extend_from_slice(&first.to_be_bytes());
    Ok(())
}
pub fn in_scan(key: &MatchKey, marker: TypeMarker, db_key: &[u8]) -> Result<bool, ()> {
    if db_key.len() < 5 { panic!() }
    let id = key_phrase(db_key);
    if db_key[0] != marker as u8 { return Ok(false); }
    match key.match_phrase {
        MatchPhrase::Exact(want) => Ok(id == want),
        MatchPhrase::Range { start, end } => Ok(id >= start && id < end),
    }
}
pub fn language_matches(key: &MatchKey, db_key: &[u8]) -> Result<bool, ()> {
    if db_key.len() == 5 { return Ok(true); }
    Ok(key_languages(db_key) & key.lang_set != 0)
}

// ---- match options
pub fn default_opts() -> MatchOpts { MatchOpts { bbox: None, proximity: None, zoom: 16 } }
pub fn default_match_key() -> MatchKey { MatchKey { match_phrase: MatchPhrase::Range { start: 0, end: 1 }, lang_set: 0 } }
pub fn default_match_key_with_id() -> MatchKeyWithId {
    MatchKeyWithId { key: default_match_key(), nearby_only: false, id: 0, phrase_length: 2 }
}
pub fn adjust_to_zoom(opts: &MatchOpts, z: u16) -> MatchOpts {
    let proximity = match opts.proximity {
        None => None,
        Some(p) => if z == opts.zoom { Some(p) }
            else if z < opts.zoom { let d = opts.zoom - z; Some([p[0] >> d, p[1] >> d]) }
            else {
                // the tile just up and left of the centre of the covering block
                let n: u16 = 1 << (z - opts.zoom);
                Some([p[0] * n + (n / 2 - 1), p[1] * n + (n / 2 - 1)])
            },
    };
    let bbox = match opts.bbox {
        None => None,
        Some(b) => if z == opts.zoom { Some(b) } else { Some(crate::spatial::adjust_bbox_zoom(b, opts.zoom, z)) },
    };
    MatchOpts { bbox, proximity, zoom: z }
}
pub fn nearby_only(opts: &MatchOpts) -> MatchOpts {
    match opts.proximity {
        None => opts.clone(),
        Some(p) => {
            let tile_miles = 24901.0 / ((1 << opts.zoom) as f64);
            let pad = (25.0 / tile_miles).ceil() as u16;
            let around = [
                if p[0] < pad { 0 } else { p[0] - pad },
                if p[1] < pad { 0 } else { p[1] - pad },
                p[0].saturating_add(pad),
                p[1].saturating_add(pad),
            ];
            let bbox = match opts.bbox {
                None => around,
                Some(b) => [
                    if b[0] > around[0] { b[0] } else { around[0] },
                    if b[1] > around[1] { b[1] } else { around[1] },
                    if b[2] < around[2] { b[2] } else { around[2] },
                    if b[3] < around[3] { b[3] } else { around[3] },
                ],
            };
            MatchOpts { bbox: Some(bbox), proximity: Some(p), zoom: opts.zoom }
        }
    }
}

// ---- order of contexts: relevance, scoredist, then lower subquery index, then x, y, id
pub fn context_order(a: &CoalesceContext, b: &CoalesceContext) -> Ordering {
    let (p, q) = (&a.entries[0], &b.entries[0]);
    OrderedFloat(a.relev).cmp(&OrderedFloat(b.relev))
        .then(OrderedFloat(p.scoredist).cmp(&OrderedFloat(q.scoredist)))
        .then(q.idx.cmp(&p.idx))
        .then(p.grid_entry.x.cmp(&q.grid_entry.x))
        .then(p.grid_entry.y.cmp(&q.grid_entry.y))
        .then(p.grid_entry.id.cmp(&q.grid_entry.id))
}
pub fn context_partial_order(a: &CoalesceContext, b: &CoalesceContext) -> Option<Ordering> { Some(context_order(a, b)) }
pub fn context_same(a: &CoalesceContext, b: &CoalesceContext) -> bool { context_order(a, b) == Ordering::Equal }

// ---- queue that keeps the best `max_size` elements
pub struct ConstrainedPriorityQueue<T: Ord> { pub max_size: usize, heap: MinMaxHeap<T> }
pub fn queue_new(n: usize) -> ConstrainedPriorityQueue<u32> { ConstrainedPriorityQueue { max_size: n, heap: MinMaxHeap::new() } }
pub fn queue_push(q: &mut ConstrainedPriorityQueue<u32>, x: u32) -> bool {
    if q.heap.len() < q.max_size {
        q.heap.push(x);
        return true;
    }
    match q.heap.peek_min() {
        None => false,
        Some(worst) => if x > *worst { q.heap.replace_min(x); true } else { false },
    }
}
pub fn queue_pop(q: &mut ConstrainedPriorityQueue<u32>) -> Option<u32> { q.heap.pop_max() }
pub fn queue_min(q: &ConstrainedPriorityQueue<u32>) -> Option<&u32> { q.heap.peek_min() }
pub fn queue_max(q: &ConstrainedPriorityQueue<u32>) -> Option<&u32> { q.heap.peek_max() }
pub fn queue_len(q: &ConstrainedPriorityQueue<u32>) -> usize { q.heap.len() }
pub fn queue_desc(q: ConstrainedPriorityQueue<u32>) -> Vec<u32> { q.heap.into_vec_desc() }
pub fn queue_of<T: Ord>(n: usize) -> ConstrainedPriorityQueue<T> { ConstrainedPriorityQueue { max_size: n, heap: MinMaxHeap::new() } }
pub fn keep<T: Ord>(q: &mut ConstrainedPriorityQueue<T>, x: T) -> bool {
    if q.heap.len() < q.max_size {
        q.heap.push(x);
        return true;
    }
    match q.heap.peek_min() {
        None => false,
        Some(worst) => if x > *worst { q.heap.replace_min(x); true } else { false },
    }
}
pub fn queue_worst<T: Ord>(q: &ConstrainedPriorityQueue<T>) -> Option<&T> { q.heap.peek_min() }
pub fn queue_best<T: Ord>(q: &ConstrainedPriorityQueue<T>) -> Option<&T> { q.heap.peek_max() }
pub fn queue_size<T: Ord>(q: &ConstrainedPriorityQueue<T>) -> usize { q.heap.len() }
pub fn queue_items<T: Ord>(q: ConstrainedPriorityQueue<T>) -> impl Iterator<Item = T> { q.heap.into_iter() }
pub fn queue_sorted<T: Ord>(q: ConstrainedPriorityQueue<T>) -> Vec<T> { q.heap.into_vec_desc() }

// ---- relevance codes
pub fn relev_code(r: f64) -> u8 {
    if r == 0.4 { return 0; }
    if r == 0.6 { return 1; }
    if r == 0.8 { return 2; }
    3
}
pub fn relev_value(code: u8) -> f64 {
    if code == 0 { 0.4 } else if code == 1 { 0.6 } else if code == 2 { 0.8 } else { 1.0 }
}

// ---- consecutive elements with equal keys, collected
pub fn somewhat_eager_groupby<T: Iterator, F, K>(mut it: T, mut key: F) -> impl Iterator<Item = (K, Vec<T::Item>)>
where K: Sized + Copy + PartialEq, F: FnMut(&T::Item) -> K {
    let mut curr_key: Option<K> = None;
    let mut running_group: Vec<T::Item> = Vec::new();
    let mut done = false;
    std::iter::from_fn(move || {
        if done { return None; }
        loop {
            match it.next() {
                Some(val) => {
                    let k = key(&val);
                    match &curr_key {
                        None => {
                            curr_key = Some(k);
                            running_group.push(val);
                        }
                        Some(o) => {
                            if *o == k {
                                running_group.push(val);
                            } else {
                                let out = (*o, std::mem::replace(&mut running_group, Vec::new()));
                                running_group.push(val);
                                curr_key = Some(k);
                                return Some(out);
                            }
                        }
                    }
                }
                None => {
                    return match &curr_key {
                        None => None,
                        Some(o) => {
                            done = true;
                            Some((*o, std::mem::replace(&mut running_group, Vec::new())))
                        }
                    };
                }
            }
        }
    })
}
