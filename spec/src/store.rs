//! Reading a store: opening, reading one key, listing keys, and streaming the matches of a request.
use crate::common::*;
use crate::format::*;
use crate::spatial;
use itertools::Itertools;
use min_max_heap::MinMaxHeap;
use morton::deinterleave_morton;
use ordered_float::OrderedFloat;
use rocksdb::{Direction, IteratorMode, Options, DB};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::path::PathBuf;

#[derive(Clone)]
pub struct GridStore {
    db: DB,
    pub bin_boundaries: HashSet<u32>,
    pub path: PathBuf,
    pub zoom: u16,
    pub type_id: u16,
    pub coalesce_radius: f64,
    pub bboxes: Vec<[u16; 4]>,
    pub max_score: f64,
}

pub fn open(path: PathBuf, zoom: u16, type_id: u16, coalesce_radius: f64, bboxes: Vec<[u16; 4]>, max_score: f64) -> Result<GridStore, rocksdb::Error> {
    let mut opts = Options::default();
    opts.set_read_only(true);
    opts.set_allow_mmap_reads(true);
    let db = DB::open(&opts, &path)?;
    let mut bin_boundaries = HashSet::new();
    if let Some(baked) = db.get("~BOUNDS")? {
        let b: &[u8] = baked.as_ref();
        for word in b.chunks(4) {
            if word.len() == 4 {
                let mut w = [0u8; 4];
                w.copy_from_slice(word);
                bin_boundaries.insert(u32::from_le_bytes(w));
            }
        }
    }
    Ok(GridStore { db, bin_boundaries, path, zoom, type_id, coalesce_radius, bboxes, max_score })
}
pub fn open_plain(path: PathBuf) -> Result<GridStore, rocksdb::Error> { open(path, 6, 0, 0., vec![[0, 0, 63, 63]], 0.) }
pub fn might_be_slow(s: &GridStore) -> bool { s.zoom > 13 }

/// every feature of a record, in stored order
pub fn entries(d: &[u8]) -> impl Iterator<Item = GridEntry> + '_ {
    var_all(d, root(d).relev_scores).into_iter().flat_map(move |group| {
        let relev = relev_value(group.relev_score >> 4);
        let score = group.relev_score & 15;
        uniform_all(d, group.coords).flat_map(move |place| {
            let (x, y) = deinterleave_morton(place.coord);
            fixed_all(d, place.ids).map(move |c| GridEntry { relev, score, x, y, id: c >> 8, source_phrase_hash: (c & 255) as u8 })
        })
    })
}
pub fn get(s: &GridStore, key: &GridKey) -> Result<Option<impl Iterator<Item = GridEntry>>, rocksdb::Error> {
    let mut k = Vec::new();
    key_bytes(key, TypeMarker::SinglePhrase, &mut k);
    Ok(match s.db.get(&k)? {
        None => None,
        Some(v) => {
            let all: Vec<GridEntry> = entries(v.as_ref()).collect();
            Some(all.into_iter())
        }
    })
}
fn parse_key(k: &[u8]) -> Result<GridKey, &'static str> {
    if k.len() < 5 { return Err("unexpected end"); }
    Ok(GridKey { phrase_id: key_phrase(k), lang_set: key_languages(k) })
}
pub fn keys(s: &GridStore) -> impl Iterator<Item = Result<GridKey, &'static str>> {
    s.db.iterator(IteratorMode::Start).take_while(|(k, _)| k[0] == 0).map(|(k, _)| parse_key(&k))
}
pub fn iter(s: &GridStore) -> impl Iterator<Item = Result<(GridKey, Vec<GridEntry>), &'static str>> {
    s.db.iterator(IteratorMode::Start).take_while(|(k, _)| k[0] == 0).map(|(k, v)| {
        let key = parse_key(&k)?;
        let all: Vec<GridEntry> = entries(&v).collect();
        Ok((key, all))
    })
}

// ---- matching
/// positions of one relevance-and-score group that pass the filters, each with distance, radius test and score
fn places<'a>(d: &'a [u8], group: &RelevScore, opts: &'a MatchOpts, radius: f64) -> Vec<(f64, bool, u8, f64, u16, u16, Coord)> {
    let score = group.relev_score & 15;
    let at = group.coords;
    let chosen: Vec<Coord> = match (opts.bbox, opts.proximity) {
        (None, None) => uniform_all(d, at).collect(),
        (Some(b), None) => match spatial::bbox_filter(d, at, b) { Some(v) => v.collect(), None => Vec::new() },
        (None, Some(p)) => match spatial::proximity(d, at, p) { Some(v) => v.collect(), None => Vec::new() },
        (Some(b), Some(p)) => match spatial::bbox_proximity(d, at, b, p) { Some(v) => v.collect(), None => Vec::new() },
    };
    chosen.into_iter().map(|c| {
        let (x, y) = deinterleave_morton(c.coord);
        let (distance, near, worth) = match opts.proximity {
            None => (0., false, score as f64),
            Some(p) => {
                let far = spatial::tile_dist(p[0], p[1], x, y);
                (far, far <= spatial::proximity_radius(opts.zoom, radius), spatial::scoredist(opts.zoom, far, score, radius))
            }
        };
        (distance, near, score, worth, x, y, c)
    }).collect()
}
/// matches of one record: by relevance group, best score first; a match neither in language nor near counts 0.96
pub fn matches<'a>(d: &'a [u8], opts: &'a MatchOpts, in_language: bool, radius: f64) -> impl Iterator<Item = MatchEntry> + 'a {
    let groups = var_all(d, root(d).relev_scores).into_iter().map(|g| (relev_value(g.relev_score >> 4), g));
    somewhat_eager_groupby(groups, |(relev, _)| *relev).flat_map(move |(relev, same)| {
        let lists: Vec<Vec<(f64, bool, u8, f64, u16, u16, Coord)>> = same.into_iter().map(|(_, g)| places(d, &g, opts, radius)).collect();
        lists.into_iter().kmerge_by(|a, b| a.3.partial_cmp(&b.3).unwrap() == Ordering::Greater).flat_map(move |(distance, near, score, scoredist, x, y, c)| {
            fixed_all(d, c.ids).map(move |code| MatchEntry {
                grid_entry: GridEntry {
                    relev: relev * if in_language || near { 1. } else { 0.96 },
                    score, x, y, id: code >> 8, source_phrase_hash: (code & 255) as u8,
                },
                matches_language: in_language, distance, scoredist,
            })
        })
    })
}
/// the best match of one record, and what follows it
struct QueueElement<T: Iterator<Item = MatchEntry>> {
    next_entry: MatchEntry,
    entry_iter: T,
}
impl<T: Iterator<Item = MatchEntry>> Ord for QueueElement<T> {
    fn cmp(&self, o: &Self) -> Ordering {
        let (a, b) = (&self.next_entry, &o.next_entry);
        let (g, h) = (&a.grid_entry, &b.grid_entry);
        OrderedFloat(g.relev).cmp(&OrderedFloat(h.relev))
            .then(OrderedFloat(a.scoredist).cmp(&OrderedFloat(b.scoredist)))
            .then(a.matches_language.cmp(&b.matches_language))
            .then(g.x.cmp(&h.x)).then(g.y.cmp(&h.y)).then(g.id.cmp(&h.id))
    }
}
impl<T: Iterator<Item = MatchEntry>> PartialOrd for QueueElement<T> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl<T: Iterator<Item = MatchEntry>> PartialEq for QueueElement<T> {
    fn eq(&self, o: &Self) -> bool { self.cmp(o) == Ordering::Equal }
}
impl<T: Iterator<Item = MatchEntry>> Eq for QueueElement<T> {}

/// all matches of a request, best first across records; at most `max_values` records take part, those with the best heads
pub fn streaming<'a>(s: &'a GridStore, key: &'a MatchKey, opts: &MatchOpts, max_values: usize) -> Result<impl Iterator<Item = MatchEntry> + 'a, rocksdb::Error> {
    let marker = match key.match_phrase {
        MatchPhrase::Range { start, end } if s.bin_boundaries.contains(&start) && s.bin_boundaries.contains(&end) => TypeMarker::PrefixBin,
        _ => TypeMarker::SinglePhrase,
    };
    let opts = opts.clone();
    let mut from = Vec::new();
    let _ = scan_start(key, marker, &mut from);
    let mut pri_queue = MinMaxHeap::new();
    for (k, v) in s.db.iterator(IteratorMode::From(&from, Direction::Forward)).take_while(|(k, _)| in_scan(key, marker, k).unwrap()) {
        let mut rest = matches(Box::leak(v), &opts, language_matches(key, &k).unwrap(), s.coalesce_radius);
        if let Some(head) = rest.next() {
            let e = QueueElement { next_entry: head, entry_iter: rest };
            if pri_queue.len() < max_values { pri_queue.push(e); }
            else if *pri_queue.peek_min().unwrap() < e { pri_queue.replace_min(e); }
        }
    }
    Ok(std::iter::from_fn(move || match pri_queue.peek_max_mut() {
        None => None,
        Some(mut top) => match top.entry_iter.next() {
            Some(following) => Some(std::mem::replace(&mut top.next_entry, following)),
            None => Some(top.pop().next_entry),
        },
    }))
}
