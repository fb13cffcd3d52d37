//! Building a store: collecting entries per key, renumbering, encoding, and what finish() puts in the database.
use crate::common::*;
use crate::format::*;
use itertools::Itertools;
use morton::interleave_morton;
use rocksdb::{Options, DB};
use smallvec::SmallVec;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

/// relevance-and-score code -> position code -> (id << 8 | phrase hash) in arrival order
pub type BuilderEntry = HashMap<u8, HashMap<u32, SmallVec<[u32; 4]>>>;
pub struct GridStoreBuilder { path: PathBuf, data: BTreeMap<GridKey, BuilderEntry>, bin_boundaries: Vec<u32> }
pub enum BuildError { DuplicateRenumberEntry { target_id: u32 }, OutOfBoundsRenumberEntry { tmp_id: u32 } }

pub fn builder_new(path: PathBuf) -> Result<GridStoreBuilder, ()> {
    Ok(GridStoreBuilder { path, data: BTreeMap::new(), bin_boundaries: Vec::new() })
}
fn rs_code(relev: f64, score: u8) -> u8 { (relev_code(relev) << 4) | (score & 15) }
fn id_code(id: u32, hash: u8) -> u32 { (id << 8) | (hash as u32) }

fn add_all(to: &mut BuilderEntry, values: Vec<GridEntry>) {
    for (rs, same_rs) in somewhat_eager_groupby(values.into_iter(), |v| rs_code(v.relev, v.score)) {
        let by_place = to.entry(rs).or_insert_with(HashMap::new);
        for (place, here) in &same_rs.into_iter().group_by(|v| interleave_morton(v.x, v.y)) {
            by_place.entry(place).or_insert_with(SmallVec::new).extend(here.map(|v| id_code(v.id, v.source_phrase_hash)));
        }
    }
}
pub fn insert(b: &mut GridStoreBuilder, key: &GridKey, values: Vec<GridEntry>) -> Result<(), ()> {
    let mut to_insert = BuilderEntry::new();
    add_all(&mut to_insert, values);
    b.data.insert(key.clone(), to_insert);
    Ok(())
}
pub fn append(b: &mut GridStoreBuilder, key: &GridKey, values: Vec<GridEntry>) -> Result<(), ()> {
    let mut e = b.data.entry(key.clone()).or_insert_with(BuilderEntry::new);
    add_all(&mut e, values);
    Ok(())
}
pub fn compact_append(b: &mut GridStoreBuilder, key: &GridKey, relev: f64, score: u8, id: u32, hash: u8, coords: &[(u16, u16)]) {
    let by_place = b.data.entry(key.clone()).or_insert_with(BuilderEntry::new).entry(rs_code(relev, score)).or_insert_with(HashMap::new);
    for (x, y) in coords {
        by_place.entry(interleave_morton(*x, *y)).or_insert_with(SmallVec::new).push(id_code(id, hash));
    }
}
pub fn load_bin_boundaries(b: &mut GridStoreBuilder, bounds: Vec<u32>) -> Result<(), ()> {
    b.bin_boundaries = bounds;
    Ok(())
}
pub fn renumber(b: &mut GridStoreBuilder, map: &[u32]) -> Result<(), BuildError> {
    let mut old = BTreeMap::new();
    std::mem::swap(&mut old, &mut b.data);
    for (key, value) in old.into_iter() {
        let id = match map.get(key.phrase_id as usize) {
            None => return Err(BuildError::OutOfBoundsRenumberEntry { tmp_id: key.phrase_id }),
            Some(id) => *id,
        };
        let key = GridKey { phrase_id: id, lang_set: key.lang_set };
        if b.data.contains_key(&key) { return Err(BuildError::DuplicateRenumberEntry { target_id: id }); }
        b.data.insert(key, value);
    }
    Ok(())
}

/// a record: relevance-and-scores descending, positions descending, ids descending without repeats; equal id lists shared
pub fn encode(value: BuilderEntry) -> Result<Vec<u8>, ()> {
    let mut builder: Vec<u8> = Vec::new();
    let mut items: Vec<(_, _)> = value.into_iter().collect();
    items.sort_by(|(a, _), (b, _)| b.cmp(a));
    let mut rs_list: Vec<RelevScore> = Vec::new();
    let mut id_lists: HashMap<SmallVec<[u32; 4]>, FixedVecOffset<u32>> = HashMap::new();
    for (rs, places) in items.into_iter() {
        let mut places: Vec<(_, _)> = places.into_iter().collect();
        places.sort_by(|(a, _), (b, _)| b.cmp(a));
        let mut coords: Vec<Coord> = Vec::new();
        for (coord, mut ids) in places.into_iter() {
            ids.sort_by(|a, b| b.cmp(a));
            ids.dedup();
            let at = id_lists.entry(ids.clone()).or_insert_with(|| fixed_vec(&ids, &mut builder));
            coords.push(Coord { coord, ids: at.clone() });
        }
        rs_list.push(RelevScore { relev_score: rs, coords: uniform_vec(&coords, &mut builder) });
    }
    let relev_scores = var_vec(&rs_list, &mut builder);
    fixed_scalar(PhraseRecord { relev_scores }, &mut builder);
    Ok(builder)
}

fn merge(from: &BuilderEntry, to: &mut BuilderEntry) {
    for (rs, places) in from.iter() {
        let by_place = to.entry(*rs).or_insert_with(HashMap::new);
        for (place, ids) in places.iter() {
            by_place.entry(*place).or_insert_with(SmallVec::new).extend(ids.iter().cloned());
        }
    }
}

pub fn finish(b: GridStoreBuilder) -> Result<(), rocksdb::Error> {
    let mut opts = Options::default();
    opts.set_disable_auto_compactions(true);
    opts.create_if_missing(true);
    let db = DB::open(&opts, &b.path)?;
    let mut db_key: Vec<u8> = Vec::new();
    let mut current_bin = b.bin_boundaries.iter().cloned().peekable();
    let mut bin_seq = None;
    // a phrase belongs to the bin_seq of the last boundary at or below it
    let grouped = somewhat_eager_groupby(b.data.into_iter(), |(key, _)| {
        while current_bin.peek().map_or(false, |x| key.phrase_id >= *x) { bin_seq = current_bin.next(); }
        bin_seq
    });
    for (bin_seq, members) in grouped {
        let mut lang_set_map: HashMap<u128, BuilderEntry> = HashMap::new();
        for (key, value) in members.into_iter() {
            db_key.clear();
            key_bytes(&key, TypeMarker::SinglePhrase, &mut db_key);
            let mut together = lang_set_map.entry(key.lang_set).or_insert_with(BuilderEntry::new);
            merge(&value, &mut together);
            db.put(&db_key, &encode_record(value))?;
        }
        if let Some(bin_seq) = bin_seq {
            for (lang_set, together) in lang_set_map.into_iter() {
                db_key.clear();
                key_bytes(&GridKey { phrase_id: bin_seq, lang_set }, TypeMarker::PrefixBin, &mut db_key);
                db.put(&db_key, &encode_record(together))?;
            }
        }
    }
    let mut baked: Vec<u8> = Vec::new();
    for x in b.bin_boundaries { baked.extend_from_slice(&x.to_le_bytes()); }
    db.put("~BOUNDS", &baked)?;
    db.compact_range(None::<&[u8]>, None::<&[u8]>);
    Ok(())
}
fn encode_record(value: BuilderEntry) -> Vec<u8> { encode(value).unwrap() }
