#![allow(dead_code, unused_imports)]
use carmen_core::gridstore::*;
use std::path::Path;
fn ge(id: u32, x: u16, y: u16, relev: f64, score: u8) -> GridEntry {
    GridEntry { id, x, y, relev, score, source_phrase_hash: 0 }
}
fn key(phrase_id: u32, lang_set: u128) -> GridKey { GridKey { phrase_id, lang_set } }
fn exact(phrase_id: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Exact(phrase_id), lang_set }
}
fn range(start: u32, end: u32, lang_set: u128) -> MatchKey {
    MatchKey { match_phrase: MatchPhrase::Range { start, end }, lang_set }
}
fn build(dir: &Path, items: Vec<(GridKey, Vec<GridEntry>)>, bins: Vec<u32>) {
    let mut b = GridStoreBuilder::new(dir).unwrap();
    for (k, v) in items { b.append(&k, v).unwrap(); }
    if !bins.is_empty() { b.load_bin_boundaries(bins).unwrap(); }
    b.finish().unwrap();
}
fn open(dir: &Path, zoom: u16, type_id: u16, radius: f64) -> GridStore {
    GridStore::new_with_options(dir, zoom, type_id, radius, vec![[0, 0, 65535, 65535]], 15.0).unwrap()
}
fn sub<'a>(store: &'a GridStore, idx: u16, mask: u32, weight: f64, keys: Vec<(MatchKey, u32)>, non: &[usize]) -> PhrasematchSubquery<&'a GridStore> {
    let mut f = fixedbitset::FixedBitSet::with_capacity(128);
    for i in non { f.insert(*i) }
    PhrasematchSubquery {
        store, idx, non_overlapping_indexes: f, weight, mask,
        match_keys: keys.into_iter().map(|(key, id)| MatchKeyWithId { key, id, nearby_only: false, phrase_length: 5 }).collect(),
    }
}
fn ids(c: &[CoalesceContext]) -> Vec<Vec<u32>> {
    c.iter().map(|c| c.entries.iter().map(|e| e.grid_entry.id).collect()).collect()
}
fn check(ok: bool, what: &str) {
    if !ok { println!("FAIL: {}", what); std::process::exit(1) }
}
