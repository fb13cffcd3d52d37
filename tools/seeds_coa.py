CO = "rust-src/src/gridstore/coalesce.rs"
SK = "rust-src/src/gridstore/stackable.rs"
H = """
fn openb(dir: &Path, zoom: u16, type_id: u16, boxes: Vec<[u16; 4]>, max_score: f64) -> GridStore {
    GridStore::new_with_options(dir, zoom, type_id, 0., boxes, max_score).unwrap()
}
fn one(dir: &Path, entries: Vec<GridEntry>) { build(dir, vec![(key(1, 1), entries)], vec![]); }
fn tree_children(t: &carmen_core::gridstore::PhrasematchSubquery<&GridStore>) -> u16 { t.idx }
fn opts(zoom: u16) -> MatchOpts { MatchOpts { zoom, ..MatchOpts::default() } }
"""
seed("stack-grandparent-apart", "C22", [(SK, "let mut target_bmask: FixedBitSet = node.bmask.clone();",
  "let mut target_bmask: FixedBitSet = phrasematch.non_overlapping_indexes.clone();")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 1, 1, 1., 1)]);
    let s: Vec<GridStore> = (0..4).map(|t| open(d.path(), 6, t, 0.)).collect();
    let k = || vec![(exact(1, 1), 0)];
    let v = vec![sub(&s[0], 0, 1, 0.25, k(), &[3]), sub(&s[1], 1, 2, 0.25, k(), &[]), sub(&s[2], 2, 4, 0.25, k(), &[]), sub(&s[3], 3, 8, 0.25, k(), &[])];
    let t = stackable(&v);
    check(t.root.max_relev == 0.75, "0 and 3 are never in one stack");
}
""", "a stack of four whose first and last subqueries exclude each other", "a subquery excluded two levels up is stacked")
seed("stack-tie-order", "C22", [(SK, "(Reverse(OrderedFloat(pm.weight)), pm.idx)", "(Reverse(OrderedFloat(pm.weight)), Reverse(pm.idx))")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 1, 1, 1., 1)]);
    let s = open(d.path(), 6, 0, 0.);
    let k = || vec![(exact(1, 1), 0)];
    let v = vec![sub(&s, 5, 1, 0.5, k(), &[]), sub(&s, 2, 1, 0.5, k(), &[]), sub(&s, 9, 1, 0.75, k(), &[])];
    let t = stackable(&v);
    let o: Vec<u16> = t.root.children.iter().map(|i| t.arena.get(*i).unwrap().idx).collect();
    check(o == vec![9, 2, 5], "by weight, then by index");
}
""", "two subqueries of one type with equal weight", "the higher index comes first")
seed("stack-type-again", "C22", [(SK, "type_idx + 1,", "type_idx,")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 1, 1, 1., 1)]);
    let s = open(d.path(), 6, 0, 0.);
    let k = || vec![(exact(1, 1), 0)];
    let v = vec![sub(&s, 0, 1, 0.5, k(), &[0]), sub(&s, 1, 2, 0.25, k(), &[1])];
    let t = stackable(&v);
    check(t.root.max_relev == 0.5, "one subquery of each type");
}
""", "subqueries of one type over different words that do not exclude each other", "subqueries of the same type are stacked on each other")
seed("arena-equal-refused", "C23", [(SK, "old_total_leaves >= self.soft_max && max_relev < self.min_relev", "old_total_leaves >= self.soft_max && max_relev <= self.min_relev")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 1, 1, 1., 1)]);
    let s = open(d.path(), 6, 0, 0.);
    let v: Vec<_> = (0..2005).map(|i| sub(&s, i, 1, 0.5, vec![(exact(1, 1), 0)], &[])).collect();
    check(stackable(&v).root.children.len() == 2005, "as good as the worst is kept");
}
""", "more than 2000 leaves of the same relevance", "nodes as good as the worst held are refused")
seed("arena-cull-late", "C23", [(SK, "let total_without_min = self.total_leaves - min_count;", "let total_without_min = old_total_leaves - min_count;")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 1, 1, 1., 1)]);
    let (s, u) = (open(d.path(), 6, 0, 0.), open(d.path(), 6, 1, 0.));
    let mut v = vec![sub(&s, 0, 1, 0.25, vec![(exact(1, 1), 0)], &[])];
    for i in 1..2001 { v.push(sub(&u, i, 1, 0.5, vec![(exact(1, 1), 0)], &[])); }
    let t = stackable(&v);
    check(t.arena.get(t.root.children[0]).is_none(), "the worst leaf is dropped once there are 2000 better ones");
}
""", "exactly 2000 better leaves after a worse one", "the worst leaf is dropped one addition late")
seed("single-order-xy", "C24", [(CO, """            OrderedFloat(context.entries[0].scoredist),
            context.entries[0].grid_entry.x,
            context.entries[0].grid_entry.y,""", """            OrderedFloat(context.entries[0].scoredist),
            context.entries[0].grid_entry.y,
            context.entries[0].grid_entry.x,""")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 1, 9, 1., 3), ge(2, 5, 2, 1., 3)]);
    let s = open(d.path(), 6, 0, 0.);
    let c = coalesce(vec![sub(&s, 0, 1, 1., vec![(exact(1, 1), 0)], &[])], &opts(6)).unwrap();
    check(ids(&c) == vec![vec![2], vec![1]], "greater x first");
}
""", "two features of equal score, one further east, one further south", "order by y before x")
seed("tree-single-replace", "C24", [(CO, """        match coalesced.entry(current_id) {
            Entry::Occupied(mut already_coalesced) => {
                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                entry.insert(coalesce_entry);
            }
        }

        if previous_id != Some(current_id) {
            feature_count += 1;
        }
        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut ids""", """        match coalesced.entry(current_id) {
            Entry::Occupied(mut already_coalesced) => {
                if current_scoredist != already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                entry.insert(coalesce_entry);
            }
        }

        if previous_id != Some(current_id) {
            feature_count += 1;
        }
        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }
        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);
        previous_relevance = current_relev;
        previous_scoredist = current_scoredist;
    }

    let mut ids""")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 1, 1, 1., 7), ge(2, 2, 2, 1., 5), ge(1, 3, 3, 1., 3)]);
    let s = open(d.path(), 6, 0, 0.);
    let c = stack_and_coalesce(&vec![sub(&s, 0, 1, 1., vec![(exact(1, 1), 0)], &[])], &opts(6)).unwrap();
    check(c[0].entries[0].grid_entry.id == 1 && c[0].entries[0].grid_entry.score == 7, "best entry of feature 1");
}
""", "a feature with two places of different score and another feature between them", "the worse place of a feature replaces the better one")
seed("coalesce-one-more", "C25", [(CO, "if out.len() >= MAX_CONTEXTS {", "if out.len() > MAX_CONTEXTS {")], "lib", H + """
fn main() {
    let (d, e) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    one(d.path(), vec![ge(1, 0, 0, 1., 1)]);
    one(e.path(), (0..60).map(|i| ge(100 + i, i as u16 % 8, i as u16 / 8, 1., 1)).collect());
    let (a, b) = (open(d.path(), 3, 0, 0.), open(e.path(), 6, 1, 0.));
    let q = || vec![(exact(1, 1), 0)];
    let c = coalesce(vec![sub(&a, 0, 1, 0.5, q(), &[]), sub(&b, 1, 2, 0.5, q(), &[])], &opts(6)).unwrap();
    check(c.len() == 40, "at most 40 contexts");
}
""", "more than 40 contexts of a stack of two", "41 contexts are returned")
seed("coalesce-gap-prefix", "C25", [(CO, """            if max_relevance - context.relev >= 0.25 {
                break;
            }
            let inserted""", """            if max_relevance - context.relev >= 0.25 && context.entries.len() > 1 {
                break;
            }
            let inserted""")], "lib", H + """
fn main() {
    let (d, e) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    one(d.path(), vec![ge(1, 0, 0, 1., 1)]);
    one(e.path(), vec![ge(3, 40, 40, 1., 5), ge(2, 1, 1, 1., 1)]);
    let (a, b) = (open(d.path(), 3, 0, 0.), open(e.path(), 6, 1, 0.));
    let q = || vec![(exact(1, 1), 0)];
    let c = coalesce(vec![sub(&a, 0, 1, 0.5, q(), &[]), sub(&b, 1, 2, 0.5, q(), &[])], &opts(6)).unwrap();
    check(c.iter().all(|x| c[0].relev - x.relev < 0.25), "near the best");
}
""", "a context of one entry that was near the best until a later stack became the best", "contexts far below the best are returned")
seed("multi-same-zoom", "C26", [(CO, "|| subquery.store.borrow().zoom < subquery_b.store.borrow().zoom", "|| subquery.store.borrow().zoom <= subquery_b.store.borrow().zoom")], "lib", H + """
fn main() {
    let (d, e) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    one(d.path(), vec![ge(1, 3, 3, 1., 1)]);
    one(e.path(), vec![ge(2, 3, 3, 1., 1)]);
    let (a, b) = (open(d.path(), 6, 0, 0.), open(e.path(), 6, 1, 0.));
    let q = || vec![(exact(1, 1), 0)];
    let c = coalesce(vec![sub(&a, 0, 1, 0.5, q(), &[]), sub(&b, 1, 2, 0.5, q(), &[])], &opts(6)).unwrap();
    check(ids(&c)[0] == vec![2, 1], "stacked");
}
""", "two subqueries whose stores have the same zoom", "they are not stacked")
seed("multi-ascending", "C26", [(CO, "} else if entries[0].mask > entries[1].mask {", "} else if entries[0].mask < entries[1].mask {")], "lib", H + """
fn main() {
    let (d, e) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    one(d.path(), vec![ge(1, 0, 0, 1., 1)]);
    one(e.path(), vec![ge(2, 3, 3, 1., 1)]);
    let (a, b) = (open(d.path(), 3, 0, 0.), open(e.path(), 6, 1, 0.));
    let q = || vec![(exact(1, 1), 0)];
    let c = coalesce(vec![sub(&a, 0, 2, 0.5, q(), &[]), sub(&b, 1, 1, 0.5, q(), &[])], &opts(6)).unwrap();
    check(ids(&c)[0] == vec![2, 1] && c[0].relev == 1., "descending parts are not penalised");
}
""", "a stack of two whose masks descend", "the wrong order of parts is penalised")
seed("multi-scale", "C26", [(CO, "1 << (subquery.store.borrow().zoom - *other_zoom);", "1 << (subquery.store.borrow().zoom - *other_zoom).min(3);")], "lib", H + """
fn main() {
    let (d, e) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    one(d.path(), vec![ge(1, 5, 5, 1., 1)]);
    one(e.path(), vec![ge(2, 5 * 16 + 3, 5 * 16 + 3, 1., 1)]);
    let (a, b) = (open(d.path(), 3, 0, 0.), open(e.path(), 7, 1, 0.));
    let q = || vec![(exact(1, 1), 0)];
    let c = coalesce(vec![sub(&a, 0, 1, 0.5, q(), &[]), sub(&b, 1, 2, 0.5, q(), &[])], &opts(7)).unwrap();
    check(ids(&c)[0] == vec![2, 1], "stacked across four zooms");
}
""", "stores more than three zooms apart", "entries are stacked on the wrong row of tiles")
seed("collapse-mask", "C27", [(CO, "phrasematch.mask);", "phrasematch.mask & 0xff);")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 1, 1, 1., 1)]);
    let s = open(d.path(), 6, 0, 0.);
    let c = collapse_phrasematches(vec![sub(&s, 0, 1, 0.5, vec![(exact(1, 1), 0)], &[]), sub(&s, 0, 257, 0.5, vec![(exact(2, 1), 1)], &[])]);
    check(c.len() == 2, "different parts of the query stay apart");
}
""", "two subqueries of one index and weight whose words differ beyond the eighth only", "they are merged into one")
seed("penalize-last", "C28", [(CO, "|| context.entries[0].mask > context.entries[1].mask {", "|| context.entries[0].mask > context.entries[context.entries.len() - 1].mask {")], "lib", H + """
fn main() {
    let ds: Vec<_> = (0..3).map(|_| tempfile::tempdir().unwrap()).collect();
    one(ds[0].path(), vec![ge(1, 0, 0, 1., 1)]); one(ds[1].path(), vec![ge(2, 0, 0, 1., 1)]); one(ds[2].path(), vec![ge(3, 0, 0, 1., 1)]);
    let s: Vec<_> = (0..3).map(|i| open(ds[i].path(), 6, i as u16, 0.)).collect();
    let q = |i| vec![(exact(1, 1), i)];
    let c = stack_and_coalesce(&vec![sub(&s[0], 0, 1, 0.25, q(0), &[]), sub(&s[1], 1, 4, 0.25, q(1), &[]), sub(&s[2], 2, 2, 0.25, q(2), &[])], &opts(6)).unwrap();
    check(c[0].entries.len() == 3 && c[0].relev == 0.75, "only the first two parts count");
}
""", "a context of three entries whose first mask lies between the others", "the order of the first and last part is penalised")
NEAR = H + """
fn main() {
    let ds: Vec<_> = (0..9).map(|_| tempfile::tempdir().unwrap()).collect();
    for (i, d) in ds.iter().enumerate() { build(d.path(), (1..5).map(|p| (key(p, 1), vec![ge(10 + i as u32, 20, 20, 1., 1)])).collect(), vec![]); }
    let s: Vec<_> = (0..9).map(|i| openb(ds[i].path(), 6, i as u16, vec![if i == 4 { [10, 10, 20, 20] } else { [30, 30, 40, 40] }], if i == 4 { 1. } else { 9. })).collect();
    let v: Vec<_> = (0..9).map(|i| { let mut q = sub(&s[i], i as u16, 1, 1., vec![(range(1, 4, 1), i as u32)], &[]); q.match_keys[0].phrase_length = 1; q }).collect();
    let c = stack_and_coalesce(&v, &MatchOpts { zoom: 6, proximity: Some(@P@), ..MatchOpts::default() }).unwrap();
    check(c.iter().any(|x| x.entries[0].grid_entry.id == 14), "the near store is read first");
}
"""
seed("step-near-edge", "C30", [(CO, "bbox[0] <= prox[0] && bbox[2] >= prox[0]", "bbox[0] <= prox[0] && bbox[2] > prox[0]")], "lib", NEAR.replace("@P@", "[20, 15]"),
     "a proximity point on the right edge of a store's box and more one-letter ranges than the quota", "the store does not count as near and is left out")
seed("step-score-first", "C30", [(CO, """            self.contains_prox,
            OrderedFloat(subquery.store.borrow().max_score),""", """            if self.contains_prox && subquery.store.borrow().max_score > 1. { true } else { false },
            OrderedFloat(subquery.store.borrow().max_score),""")], "lib", NEAR.replace("@P@", "[15, 15]"),
     "a near store of low top score among more one-letter ranges than the quota", "a near store with a low top score is left out")
seed("tree-tile-once", "C31", [(CO, """                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id,
                            ))""", """                                grid.grid_entry.x,
                                grid.grid_entry.y,
                                grid.grid_entry.id & 0xffff,
                            ))""")], "lib", H + """
fn main() {
    let (d, e) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    one(d.path(), vec![ge(1, 0, 0, 1., 1)]);
    one(e.path(), vec![ge(2, 3, 3, 1., 1), ge(65538, 3, 3, 1., 2)]);
    let (a, b) = (open(d.path(), 3, 0, 0.), open(e.path(), 6, 1, 0.));
    let c = stack_and_coalesce(&vec![sub(&a, 0, 1, 0.5, vec![(exact(1, 1), 0)], &[]), sub(&b, 1, 2, 0.5, vec![(exact(1, 1), 1)], &[])], &opts(6)).unwrap();
    check(c.iter().filter(|x| x.entries.len() == 2).count() == 2, "both features are stacked");
}
""", "two features of one tile whose ids agree in the low 16 bits", "one of them is lost")
seed("tree-box-zoom", "C31", [(CO, "adjust_bbox_zoom(*bbox, child_zoom, current_zoom)", "adjust_bbox_zoom(*bbox, current_zoom, child_zoom)")], "lib", H + """
fn main() {
    let (d, e) = (tempfile::tempdir().unwrap(), tempfile::tempdir().unwrap());
    one(d.path(), vec![ge(1, 2, 2, 1., 1)]);
    one(e.path(), vec![ge(2, 17, 17, 1., 1)]);
    let (a, b) = (open(d.path(), 3, 0, 0.), openb(e.path(), 6, 1, vec![[16, 16, 30, 30]], 1.));
    let c = stack_and_coalesce(&vec![sub(&a, 0, 1, 0.5, vec![(exact(1, 1), 0)], &[]), sub(&b, 1, 2, 0.5, vec![(exact(1, 1), 1)], &[])], &opts(6)).unwrap();
    check(c[0].entries.len() == 2, "stacked inside the child's box");
}
""", "a detailed store with a box stacked on a coarser one", "the box is moved and the child left out")
seed("tree-early-end", "C31", [(CO, "if contexts.len() >= contexts.max_size {", "if contexts.len() >= MAX_CONTEXTS {")], "lib", H + """
fn main() {
    let ds: Vec<_> = (0..9).map(|_| tempfile::tempdir().unwrap()).collect();
    for (i, d) in ds.iter().enumerate() { one(d.path(), (0..6).map(|k| ge(100 * i as u32 + k, k as u16, 0, 1., 1)).collect()); }
    let s: Vec<_> = (0..9).map(|i| open(ds[i].path(), 6, i as u16, 0.)).collect();
    let v: Vec<_> = (0..9).map(|i| sub(&s[i], i as u16, 1, if i == 8 { 0.5 } else { 0.9 }, vec![(exact(1, 1), i as u32)], &[])).collect();
    let c = stack_and_coalesce(&v, &opts(6)).unwrap();
    check(c.len() == 54, "all contexts");
}
""", "more than eight subqueries and 40 contexts after the first eight", "walking ends although more contexts are wanted")
seed("tree-nearby-quota", "C31", [(CO, """                        if subquery.store.borrow().might_be_slow() && !key_group.nearby_only {
                            if is_range {""", """                        if subquery.store.borrow().might_be_slow() {
                            if is_range && !key_group.nearby_only {""")], "lib", H + """
fn main() {
    let d = tempfile::tempdir().unwrap();
    one(d.path(), vec![ge(1, 100, 100, 1., 1)]);
    let s = open(d.path(), 14, 0, 40.);
    let n = 602;
    let v: Vec<_> = (0..n).map(|i| { let mut q = sub(&s, i as u16, 1, 1., vec![(exact(1, 1), i as u32)], &[]); q.match_keys[0].nearby_only = true; q }).collect();
    let c = stack_and_coalesce(&v, &MatchOpts { zoom: 14, proximity: Some([100, 100]), ..MatchOpts::default() }).unwrap();
    check(c.len() == n, "nearby reads are not limited");
}
""", "more than 600 reads of slow stores restricted to nearby", "some of them are left out")
