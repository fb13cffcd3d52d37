ST = "rust-src/src/gridstore/store.rs"
Q = """
fn got(s: &GridStore, k: &MatchKey, o: &MatchOpts, n: usize) -> Vec<(u32, f64)> {
    s.streaming_get_matching(k, o, n).unwrap().map(|m| (m.grid_entry.id, m.grid_entry.relev)).collect()
}
"""
seed("get-id-width", "C16", [(ST, """                            let id = id_comp >> 8;
                            let source_phrase_hash = (id_comp & 255) as u8;
                            GridEntry {""", """                            let id = (id_comp >> 8) & 0xfffff;
                            let source_phrase_hash = (id_comp & 255) as u8;
                            GridEntry {""")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge((1 << 20) + 5, 1, 1, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<u32> = s.get(&key(1, 1)).unwrap().unwrap().map(|e| e.id).collect();
    check(got == vec![(1 << 20) + 5], "feature id reads back");
}
""", "a feature id of 2^20 or more", "the high bits of the feature id are lost on get")

seed("list-iter-bins", "C17", [(ST, "db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, value)| {", "db_iter.take_while(|(key, _)| key[0] <= 1).map(|(key, value)| {")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 1, 1, 1., 1)]), (key(2, 1), vec![ge(2, 1, 1, 1., 1)])], vec![0, 2, 4]);
    let s = open(d.path(), 14, 0, 0.);
    check(s.iter().count() == 2 && s.keys().count() == 2, "phrases only");
}
""", "listing the records of a store that has bin boundaries", "prefix bins are listed as if they were phrases")

seed("list-lang-pad", "C17", [(ST, """                let mut key_lang_full = [0u8; 16];
                key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);

                (&key_lang_full[..]).read_u128::<BigEndian>()?
            };

            Ok(GridKey { phrase_id, lang_set })""", """                let mut key_lang_full = [0u8; 16];
                for (d, s) in key_lang_full.iter_mut().rev().zip(key_lang_partial.iter()) {
                    *d = *s;
                }

                (&key_lang_full[..]).read_u128::<BigEndian>()?
            };

            Ok(GridKey { phrase_id, lang_set })""")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 0x0102), vec![ge(1, 1, 1, 1., 1)]), (key(2, 3), vec![ge(1, 1, 1, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let ks: Vec<GridKey> = s.keys().map(|k| k.unwrap()).collect();
    check(ks == vec![key(1, 0x0102), key(2, 3)], "language sets as stored");
}
""", "listing keys with a language set that needs two bytes", "language bits of different bytes are exchanged")

seed("match-bin-either-end", "C18", [(ST, "self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end)", "self.bin_boundaries.contains(&start) || self.bin_boundaries.contains(&end)")], "lib", Q + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), (0..10).map(|k| (key(k, 1), vec![ge(k + 1, 1, 1, 1., 1)])).collect(), vec![0, 5, 10]);
    let s = open(d.path(), 14, 0, 0.);
    let mut a: Vec<u32> = got(&s, &range(5, 7, 1), &MatchOpts::default(), 1000).iter().map(|x| x.0).collect();
    a.sort();
    check(a == vec![6, 7], "only the phrases of the range");
}
""", "a range with one end on a bin boundary", "phrases outside the range match")

seed("match-near-and-language", "C18", [(ST, "(if matches_language || within_radius {", "(if matches_language || within_radius && match_distance_counts(distance) {"), (ST, "#[inline]\nfn decode_matching_value<", "#[inline]\nfn match_distance_counts(distance: f64) -> bool {\n    distance > 0.0\n}\n\n#[inline]\nfn decode_matching_value<")], "lib", Q + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 100, 100, 1., 1), ge(2, 101, 100, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 400.);
    let o = MatchOpts { zoom: 14, proximity: Some([100, 100]), ..MatchOpts::default() };
    check(got(&s, &exact(1, 2), &o, 1000).iter().all(|x| x.1 == 1.), "near entries are not penalised");
}
""", "an entry exactly at the proximity point, in another language", "the nearest entry of all is penalised")

seed("match-score-merge", "C18", [(ST, "scoredist1.partial_cmp(scoredist2).unwrap() == Ordering::Greater", "_score1.partial_cmp(_score2).unwrap() == Ordering::Greater")], "lib", Q + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 5000, 5000, 1., 2), ge(2, 100, 100, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 40.);
    let o = MatchOpts { zoom: 14, proximity: Some([100, 100]), ..MatchOpts::default() };
    check(got(&s, &exact(1, 1), &o, 1000).iter().map(|x| x.0).collect::<Vec<_>>() == vec![2, 1], "the near one first");
}
""", "two scores in one record and a proximity point that reverses their order", "a far entry with a high score comes before a near one")

seed("stream-limit-late", "C19", [(ST, "if pri_queue.len() >= max_values {", "if pri_queue.len() > max_values {")], "lib", Q + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), (0..10).map(|k| (key(k, 1), vec![ge(k + 1, 1, 1, 1., k as u8)])).collect(), vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let a: Vec<u32> = got(&s, &range(0, 10, 1), &MatchOpts::default(), 3).iter().map(|x| x.0).collect();
    check(a == vec![10, 9, 8], "the three best records");
}
""", "more matching records than the limit", "one record too many takes part")

seed("stream-worst-score", "C19", [(ST, "if worst_entry >= &queue_element {", "if worst_entry.next_entry.scoredist >= queue_element.next_entry.scoredist {")], "lib", Q + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 1, 1, 0.4, 9)]), (key(2, 1), vec![ge(2, 1, 1, 0.6, 8)]), (key(3, 1), vec![ge(3, 1, 1, 1., 7)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let a: Vec<u32> = got(&s, &range(0, 10, 1), &MatchOpts::default(), 2).iter().map(|x| x.0).collect();
    check(a == vec![3, 2], "the best two records");
}
""", "a later record of better relevance but lower score when the limit is reached", "a better record is turned away")

seed("stream-order-key", "C19", [(ST, "            self.next_entry.matches_language,\n            self.next_entry.grid_entry.x,", "            !self.next_entry.matches_language,\n            self.next_entry.grid_entry.x,")], "lib", Q + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 100, 100, 1., 1)]), (key(1, 2), vec![ge(2, 100, 100, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 400.);
    let o = MatchOpts { zoom: 14, proximity: Some([100, 100]), ..MatchOpts::default() };
    check(got(&s, &exact(1, 2), &o, 1000).iter().map(|x| x.0).collect::<Vec<_>>() == vec![2, 1], "the language match first");
    check(got(&s, &exact(1, 1), &o, 1000).iter().map(|x| x.0).collect::<Vec<_>>() == vec![1, 2], "the language match first");
}
""", "two equally near entries in different languages", "the entry in the wrong language comes first")

seed("open-bounds-words", "C21", [(ST, "encoded_boundaries\n                    .chunks(4)", "encoded_boundaries[..encoded_boundaries.len() & !7]\n                    .chunks(4)")], "lib", """
fn main() {
    for n in 0..6u32 {
        let d = tempfile::tempdir().unwrap();
        build(d.path(), vec![(key(1, 1), vec![ge(1, 1, 1, 1., 1)])], (0..n).map(|x| x * 300).collect());
        let s = open(d.path(), 14, 0, 0.);
        check(s.bin_boundaries.len() == n as usize, "all boundaries restored");
    }
}
""", "an odd number of bin boundaries", "the last boundary is forgotten")

seed("open-slow-zoom", "C21", [(ST, "return self.zoom >= 14;", "return self.zoom >= 14 && self.type_id > 0;")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 1, 1, 1., 1)])], vec![]);
    check(open(d.path(), 14, 0, 0.).might_be_slow() && !open(d.path(), 13, 3, 0.).might_be_slow(), "slow from zoom 14");
}
""", "a store of type 0 at zoom 14 or more", "a detailed store is not treated as slow")
