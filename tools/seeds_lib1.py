C = "rust-src/src/gridstore/common.rs"
S = "rust-src/src/gridstore/spatial.rs"

seed("key-range-inclusive", "C05", [(C, "start <= key_phrase && key_phrase < end", "start <= key_phrase && key_phrase <= end")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 1, 1, 1., 1)]), (key(2, 1), vec![ge(2, 2, 2, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<u32> = s.streaming_get_matching(&range(0, 2, 1), &MatchOpts::default(), 10).unwrap().map(|e| e.grid_entry.id).collect();
    println!("{:?}", got);
    check(got == vec![1], "phrase 2 is outside 0..2");
}
""", "a phrase stored right at the end of the requested range", "the phrase just past a requested range is returned")

seed("key-lang-high-bytes", "C06", [(C, "let key_lang_set: u128 = (&key_lang_full[..]).read_u128::<BigEndian>()?;\n\n        Ok(self.lang_set & key_lang_set != 0)", "let key_lang_set: u128 = (&key_lang_full[..]).read_u128::<BigEndian>()?;\n\n        Ok((self.lang_set as u64) & (key_lang_set as u64) != 0)")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1u128 << 100), vec![ge(1, 1, 1, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let got: Vec<bool> = s.streaming_get_matching(&exact(1, (1u128 << 100) | 2), &MatchOpts::default(), 10).unwrap().map(|e| e.matches_language).collect();
    println!("{:?}", got);
    check(got == vec![true], "the languages share bit 100");
}
""", "languages numbered 64 and up", "high languages never match")

seed("key-lang-none", "C06", [(C, "Ok(self.lang_set & key_lang_set != 0)", "Ok(self.lang_set & key_lang_set == self.lang_set)")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 1, 1, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let get = |l| -> Vec<bool> { s.streaming_get_matching(&exact(1, l), &MatchOpts::default(), 10).unwrap().map(|e| e.matches_language).collect() };
    println!("{:?} {:?}", get(3), get(1));
    check(get(3) == vec![true] && get(1) == vec![true], "the languages share bit 0");
}
""", "a request for several languages of which the key has some", "a key has to have every requested language to match")

seed("opts-prox-zoom-in", "C07", [(C, "let mid_coord_adjuster = scale_multiplier / 2 - 1;", "let mid_coord_adjuster = (scale_multiplier - 1) / 2;\n                        let mid_coord_adjuster = if target_z - self.zoom > 4 { mid_coord_adjuster + 1 } else { mid_coord_adjuster };")], "lib", """
fn main() {
    let o = MatchOpts { bbox: None, proximity: Some([3, 5]), zoom: 6 };
    let a = o.adjust_to_zoom(12);
    println!("{:?}", a);
    check(a.proximity == Some([3 * 64 + 31, 5 * 64 + 31]), "the top left of the four middle tiles");
}
""", "zooming in by more than four levels", "the proximity point moves off the agreed middle tile")

seed("opts-bbox-zoom-in", "C07", [(S, "bbox[2] * scale_multiplier + (scale_multiplier - 1)", "bbox[2] * scale_multiplier + (scale_multiplier / 2)")], "lib", """
fn main() {
    let o = MatchOpts { bbox: Some([1, 1, 2, 2]), proximity: None, zoom: 6 };
    for z in 7..12 { 
        let a = o.adjust_to_zoom(z).bbox.unwrap();
        let k = 1u16 << (z - 6);
        println!("{} {:?}", z, a);
        check(a == [k, k, 2 * k + k - 1, 2 * k + k - 1], "the box covers the same ground");
    }
}
""", "zooming in by at least two levels", "the right part of the box is cut off")

seed("nearby-box-intersect", "C07", [(C, "std::cmp::max(old_box[1], new_box[1]),", "std::cmp::min(old_box[1], new_box[1]),")], "lib", """
fn main() {
    let o = MatchOpts { bbox: Some([0, 100, 200, 200]), proximity: Some([100, 100]), zoom: 10 };
    let b = o.with_nearby_only().bbox.unwrap();
    println!("{:?}", b);
    check(b[1] >= 100, "never wider than the caller's box");
}
""", "nearby-only together with a caller's box that starts below the nearby box", "positions outside the caller's box become eligible")

seed("queue-ties", "C08", [(C, "if element > *min {", "if element >= *min {")], "lib", """
#[derive(Clone, Debug)]
struct E(u32, u32);
impl PartialEq for E { fn eq(&self, o: &E) -> bool { self.0 == o.0 } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { Some(self.0.cmp(&o.0)) } }
impl Ord for E { fn cmp(&self, o: &E) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
fn main() {
    let mut q = ConstrainedPriorityQueue::new(2);
    q.push(E(5, 0)); q.push(E(3, 1));
    let r = q.push(E(3, 2));
    let v: Vec<u32> = q.into_vec_desc().into_iter().map(|e| e.1).collect();
    println!("{} {:?}", r, v);
    check(!r && v == vec![0, 1], "an element no better than the worst one held is turned away");
}
""", "a full queue offered an element that ties with its worst", "earlier elements are replaced by equal later ones")

seed("bbox-single-tail", "C09", [(S, "    if max < range_end {\n        return None;\n    }", "    if max <= range_end {\n        return None;\n    }")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 10, 10, 1., 1), ge(2, 3, 3, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 0.);
    let o = MatchOpts { bbox: Some([3, 3, 3, 3]), proximity: None, zoom: 14 };
    let got: Vec<u32> = s.streaming_get_matching(&exact(1, 1), &o, 10).unwrap().map(|e| e.grid_entry.id).collect();
    println!("{:?}", got);
    check(got == vec![2], "the position on the box's corner is inside");
}
""", "a box whose lower right corner is the last stored position", "that position is missed")


PM = """    let tail = (prox_mid..len).map(getter);
    let coord_sets = head.into_iter().merge_by(tail.into_iter(), move |a, b| {
        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;"""
seed("prox-signed", "C10", [(S, PM, PM.replace("(a.coord as i64", "(a.coord as i32 as i64").replace("(b.coord as i64", "(b.coord as i32 as i64"))], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 60000, 60000, 1., 1), ge(3, 100, 100, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 40.);
    let o = MatchOpts { bbox: None, proximity: Some([50000, 50000]), zoom: 14 };
    let all: Vec<u32> = s.streaming_get_matching(&exact(1, 1), &o, 3).unwrap().map(|e| e.grid_entry.id).collect();
    println!("{:?}", all);
    check(all == vec![1, 3], "nearest along the curve first");
}
""", "a proximity point in the lower half of the map", "positions past the proximity point are ordered behind far ones")

seed("prox-bbox-drop", "C10", [(S, "    let head = (range.0..prox_mid).rev().filter_map(filtered_get);\n    let tail = (prox_mid..=range.1).filter_map(filtered_get);",
  "    let prox_mid = std::cmp::max(range.0, std::cmp::min(prox_mid, range.1));\n    let head = (range.0..prox_mid).rev().filter_map(filtered_get);\n    let tail = (prox_mid..range.1).filter_map(filtered_get);")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 20, 20, 1., 1), ge(2, 10, 10, 1., 1), ge(3, 5, 5, 1., 1)])], vec![]);
    let s = open(d.path(), 14, 0, 40.);
    let o = MatchOpts { bbox: Some([5, 5, 20, 20]), proximity: Some([10, 10]), zoom: 14 };
    let mut all: Vec<u32> = s.streaming_get_matching(&exact(1, 1), &o, 3).unwrap().map(|e| e.grid_entry.id).collect();
    all.sort();
    println!("{:?}", all);
    check(all == vec![1, 2, 3], "all three are inside the box");
}
""", "a box and a proximity point together", "the last position of the box's range is never returned")

seed("radius-low-zoom", "C11", [(S, "    if zoom < 6 {\n        zoom = 6;\n    }\n    if score", "    if zoom < 6 {\n        zoom = 5;\n    }\n    if score")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 3, 3, 1., 1)])], vec![]);
    let s = open(d.path(), 5, 0, 400.);
    let get = |z| { let o = MatchOpts { bbox: None, proximity: Some([5, 5]), zoom: z };
      s.streaming_get_matching(&exact(1, 1), &o, 1).unwrap().next().unwrap().scoredist };
    println!("{} {}", get(5), get(6));
    check(get(5) == get(6), "zooms below 6 are scored as zoom 6");
}
""", "an index whose zoom is below 6", "scores with distance at low zooms differ from the formula")

seed("score-cap", "C11", [(S, "    if score > 7 {\n        score = 7;\n    }\n\n    // If the distance is 0", "    if score > 7 {\n        score = score & 7;\n    }\n\n    // If the distance is 0")], "lib", """
fn main() {
    let d = tempfile::tempdir().unwrap();
    build(d.path(), vec![(key(1, 1), vec![ge(1, 3, 3, 1., 9), ge(2, 3, 3, 1., 7)])], vec![]);
    let s = open(d.path(), 14, 0, 400.);
    let o = MatchOpts { bbox: None, proximity: Some([5, 5]), zoom: 14 };
    let v: Vec<f64> = s.streaming_get_matching(&exact(1, 1), &o, 1).unwrap().map(|e| e.scoredist).collect();
    println!("{:?}", v);
    check(v[0] == v[1], "scores above 7 count as 7");
}
""", "a stored score above 7", "scores 8 to 15 wrap round to small ones")

seed("context-index-order", "C20", [(C, """            Reverse(self.entries[0].idx),
            self.entries[0].grid_entry.x,
            self.entries[0].grid_entry.y,
            self.entries[0].grid_entry.id,""", """            Reverse(self.entries[self.entries.len() - 1].idx),
            self.entries[0].grid_entry.x,
            self.entries[0].grid_entry.y,
            self.entries[0].grid_entry.id,""")], "lib", """
fn e(idx: u16, x: u16) -> CoalesceEntry {
    CoalesceEntry { grid_entry: ge(1, x, 1, 1., 1), matches_language: true, idx, tmp_id: 0, mask: 1, distance: 0., scoredist: 1., phrasematch_id: 0 }
}
fn main() {
    let a = CoalesceContext { mask: 3, relev: 1., entries: vec![e(2, 9), e(5, 0)] };
    let b = CoalesceContext { mask: 3, relev: 1., entries: vec![e(3, 1), e(1, 0)] };
    check(a > b, "the lower index of the first entry wins");
}
""", "two contexts of several entries, tied in relevance and scoredist", "ties are broken by the wrong entry's index")

