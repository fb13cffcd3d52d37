B = "rust-src/src/gridstore/builder.rs"

seed("enc-id-list-sharing", "C12", [(B, "id_lists.entry(ids.clone()).or_insert_with", "id_lists.entry((ids[0], ids.len())).or_insert_with")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(9, 1, 1, 1., 1), ge(4, 1, 1, 1., 1), ge(9, 5, 5, 1., 1), ge(6, 5, 5, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<(u16, u32)> = s.get(&key(1, 1)).unwrap().unwrap().map(|e| (e.x, e.id)).collect();
    println!("{:?}", got);
    check(got == vec![(5, 9), (5, 6), (1, 9), (1, 4)], "each position keeps its own ids");
}
""", "two positions whose id lists share the highest id and the length", "one position reads back the other's ids")

seed("enc-dedup-before-sort", "C12", [(B, "            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));\n            ids.dedup();", "            ids.dedup();\n            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(9, 1, 1, 1., 1), ge(4, 1, 1, 1., 1), ge(9, 1, 1, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<u32> = s.get(&key(1, 1)).unwrap().unwrap().map(|e| e.id).collect();
    println!("{:?}", got);
    check(got == vec![9, 4], "a feature is stated once");
}
""", "the same feature inserted twice at one position with another between", "a feature is stored twice")

seed("enc-score-order", "C12", [(B, "        relevance_score_b.cmp(&relevance_score_a)", "        (relevance_score_b >> 1).cmp(&(relevance_score_a >> 1))")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let items = (0..40u32).map(|k| (key(k, 1), vec![ge(1, 1, 1, 1., 2), ge(2, 1, 1, 1., 3)])).collect();
    build(d.path(), items, vec![]);
    let s = open(d.path(), 14, 0, 0.);
    for k in 0..40u32 {
        let got: Vec<u32> = s.get(&key(k, 1)).unwrap().unwrap().map(|e| e.id).collect();
        check(got == vec![2, 1], "the higher score first");
    }
}
""", "two scores that differ only in the lowest bit", "neighbouring scores come out in arbitrary order")

seed("append-replaces-position", "C13", [(B, "                    e.get_mut().extend(id_phrases);", "                    *e.get_mut() = id_phrases.collect();")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 1, 1, 1., 1)]), (key(1, 1), vec![ge(2, 1, 1, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<u32> = s.get(&key(1, 1)).unwrap().unwrap().map(|e| e.id).collect();
    println!("{:?}", got);
    check(got == vec![2, 1], "both features stay");
}
""", "appending a second feature at a position the key has already, with the same relevance and score", "the earlier feature is lost")

seed("compact-append-many", "C13", [(B, "        for pair in coords {\n            let zcoord", "        for pair in coords.iter().take(u16::max_value() as usize) {\n            let zcoord")], "lib", """
fn main() {
    for n in [10u32, 66000] {
        let d = tempfile::tempdir().unwrap();
        let mut b = GridStoreBuilder::new(d.path()).unwrap();
        let c: Vec<(u16, u16)> = (0..n).map(|i| ((i % 300) as u16, (i / 300) as u16)).collect();
        b.compact_append(&key(1, 1), 0.8, 4, 77, 3, &c);
        b.finish().unwrap();
        let s = open(d.path(), 14, 0, 0.);
        let got: Vec<GridEntry> = s.get(&key(1, 1)).unwrap().unwrap().collect();
        check(got.len() == n as usize && got.iter().all(|e| e.score == 4 && e.relev == 0.8 && e.id == 77 && e.source_phrase_hash == 3), "every position is there");
    }
}
""", "more than 65535 positions appended at once", "positions past the limit are dropped")

seed("insert-keeps-old", "C13", [(B, "        let mut to_insert = BuilderEntry::new();\n        extend_entries(&mut to_insert, values);", "        let mut to_insert = self.data.remove(key).unwrap_or_else(BuilderEntry::new);\n        extend_entries(&mut to_insert, values);")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let mut b = GridStoreBuilder::new(d.path()).unwrap();
    b.insert(&key(1, 1), vec![ge(1, 1, 1, 1., 1)]).unwrap();
    b.insert(&key(1, 1), vec![ge(2, 1, 1, 1., 1)]).unwrap();
    b.finish().unwrap();
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<u32> = s.get(&key(1, 1)).unwrap().unwrap().map(|e| e.id).collect();
    println!("{:?}", got);
    check(got == vec![2], "insert replaces");
}
""", "inserting twice under one key", "the entries of the first insert survive")

seed("renumber-overwrites", "C14", [(B, '''                Entry::Occupied(_) => {
                    return Err(Error::from(BuildError::DuplicateRenumberEntry {
                        target_id: *new_phrase_id,
                    }))
                }''', '''                Entry::Occupied(mut o) => {
                    copy_entries(&value, o.get_mut());
                }''')], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let mut b = GridStoreBuilder::new(d.path()).unwrap();
    for i in 0..3 { b.insert(&key(i, 1), vec![ge(i, 1, 1, 1., 1)]).unwrap(); }
    check(b.renumber(&[5, 6, 5]).is_err(), "two phrases sent to one id");
}
""", "a mapping that sends two phrases to the same id", "the two phrases are merged silently")

seed("renumber-language", "C14", [(B, "GridKey { phrase_id: *new_phrase_id, ..key }", "GridKey { phrase_id: *new_phrase_id, lang_set: key.lang_set & (std::u64::MAX as u128) }")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let mut b = GridStoreBuilder::new(d.path()).unwrap();
    b.insert(&key(0, 1u128 << 90), vec![ge(1, 1, 1, 1., 1)]).unwrap();
    b.renumber(&[4]).unwrap();
    b.finish().unwrap();
    let s = open(d.path(), 14, 0, 0.);
    check(s.get(&key(4, 1u128 << 90)).unwrap().is_some(), "the key keeps its language");
}
""", "a key with a language numbered 64 or higher", "renumbering drops the language")

seed("bin-union-last", "C15", [(B, "            zcoord_entry.extend(values.iter().cloned());", "            *zcoord_entry = values.clone();")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(2, 1), vec![ge(2, 2, 2, 1., 1)]), (key(3, 1), vec![ge(3, 2, 2, 1., 1)])], vec![2, 4]);
    let s = open(d.path(), 14, 0, 0.);
    let mut got: Vec<u32> = s.streaming_get_matching(&range(2, 4, 1), &MatchOpts::default(), 10).unwrap().map(|e| e.grid_entry.id).collect();
    got.sort();
    println!("{:?}", got);
    check(got == vec![2, 3], "both phrases of the bin");
}
""", "two phrases of one bin at the same position with the same relevance and score", "a bin keeps only the last phrase there")

seed("bin-languages-merged", "C15", [(B, "lang_set_map.entry(grid_key.lang_set)", "lang_set_map.entry(grid_key.lang_set & !(1u128 << 127))")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    let l = 1u128 << 127;
    build(d.path(), vec![(key(2, l), vec![ge(2, 2, 2, 1., 1)])], vec![2, 4]);
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<bool> = s.streaming_get_matching(&range(2, 4, l), &MatchOpts::default(), 10).unwrap().map(|e| e.matches_language).collect();
    println!("{:?}", got);
    check(got == vec![true], "language 127 is kept in the bin");
}
""", "language 127 and a request answered from the prefix bin", "the bin forgets the last language")
