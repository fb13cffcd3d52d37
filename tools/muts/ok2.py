"""Behaviour-preserving edits: none may raise an alarm."""
C = "rust-src/src/gridstore/coalesce.rs"
MUTS = []
def ok(name, *edits, file=C):
    (o, n), rest = edits[0], edits[1:]
    MUTS.append((name, "ok", file, o, n) + tuple((file, a, b) for a, b in rest))

# ---- coalesce
ok("c_iterout", ("""        for context in contexts {
            if out.len() >= MAX_CONTEXTS {
                break;
            }
            // 0.25 is the smallest allowed relevance
            if max_relevance - context.relev >= 0.25 {
                break;
            }
            let inserted""", """        for context in contexts.into_iter().take_while(|c| max_relevance - c.relev < 0.25) {
            if out.len() >= MAX_CONTEXTS {
                break;
            }
            let inserted"""))
ok("c_whole", ("""        for context in contexts {
            if out.len() >= MAX_CONTEXTS {
                break;
            }
            // 0.25 is the smallest allowed relevance
            if max_relevance - context.relev >= 0.25 {
                break;
            }
            let inserted = sets.insert(context.entries[0].tmp_id.into());
            if inserted {
                out.push(context);
            }
        }
""", """        out.extend(
            contexts
                .into_iter()
                .take_while(|c| !(max_relevance - c.relev >= 0.25))
                .filter(|c| sets.insert(c.entries[0].tmp_id.into()))
                .take(MAX_CONTEXTS),
        );
"""))
ok("c_early", ("""    let mut out = Vec::with_capacity(MAX_CONTEXTS);
    if !contexts.is_empty() {
        let max_relevance = contexts[0].relev;""", """    let mut out = Vec::with_capacity(MAX_CONTEXTS);
    if contexts.is_empty() {
        return Ok(out);
    }
    {
        let max_relevance = contexts[0].relev;"""))
ok("c_first", ("        let max_relevance = contexts[0].relev;", "        let max_relevance = contexts.first().map_or(0.0, |c| c.relev);"))
ok("c_contains", ("""            let inserted = sets.insert(context.entries[0].tmp_id.into());
            if inserted {
                out.push(context);
            }""", """            let tmp_id: u64 = context.entries[0].tmp_id.into();
            if sets.contains(&tmp_id) {
                continue;
            }
            sets.insert(tmp_id);
            out.push(context);"""))
ok("c_set32", ("HashSet<u64>", "HashSet<u32>"), ("sets.insert(context.entries[0].tmp_id.into())", "sets.insert(context.entries[0].tmp_id)"))
ok("c_match", ("""    let contexts = if stack.len() <= 1 {
        coalesce_single(&stack[0], match_opts)?
    } else {
        coalesce_multi(stack, match_opts)?
    };""", """    let contexts = match stack.len() {
        1 => coalesce_single(&stack[0], match_opts)?,
        _ => coalesce_multi(stack, match_opts)?,
    };"""))
# ---- grid_to_coalesce_entry
ok("g_explicit", ("""        grid_entry: GridEntry { relev: relevance, ..grid.grid_entry },""", """        grid_entry: GridEntry {
            relev: relevance,
            id: grid.grid_entry.id,
            x: grid.grid_entry.x,
            y: grid.grid_entry.y,
            score: grid.grid_entry.score,
            source_phrase_hash: grid.grid_entry.source_phrase_hash,
        },"""))
ok("g_tmp", ("tmp_id: ((subquery.idx as u32) << 25) + grid.grid_entry.id,", "tmp_id: grid.grid_entry.id + (u32::from(subquery.idx) << 25),"))
ok("g_clone", ("""        grid_entry: GridEntry { relev: relevance, ..grid.grid_entry },""", """        grid_entry: {
            let mut g = grid.grid_entry.clone();
            g.relev = relevance;
            g
        },"""))
# ---- coalesce_single
ok("s_prevtuple", ("""        if previous_id == Some(coalesce_entry.grid_entry.id)
            && coalesce_entry.scoredist <= previous_scoredist
        {
            continue;
        }
""", """        if let Some(prev) = previous_id {
            if prev == coalesce_entry.grid_entry.id && !(coalesce_entry.scoredist > previous_scoredist) {
                continue;
            }
        }
"""))
ok("s_full", ("""        if feature_count > bigger_max {
            if coalesce_entry.scoredist < min_scoredist {
                continue;
            } else if coalesce_entry.grid_entry.relev < previous_relevance {
                // Grids should be sorted by relevance coming out of get_matching,
                // so if it's lower than the last relevance, stop
                break;
            }
        }
""", """        let full = feature_count > bigger_max;
        if full && coalesce_entry.scoredist < min_scoredist {
            continue;
        }
        if full && coalesce_entry.grid_entry.relev < previous_relevance {
            break;
        }
"""))
ok("s_ge", ("        if feature_count > bigger_max {\n            if coalesce_entry", "        if feature_count >= bigger_max + 1 {\n            if coalesce_entry"))
ok("s_vars_first", ("""        // If it's the same feature as the last one, but a lower scoredist don't add it
        if previous_id == Some(coalesce_entry.grid_entry.id)
            && coalesce_entry.scoredist <= previous_scoredist
        {""", """        let current_id = coalesce_entry.grid_entry.id;
        let current_relev = coalesce_entry.grid_entry.relev;
        let current_scoredist = coalesce_entry.scoredist;
        if previous_id == Some(current_id) && current_scoredist <= previous_scoredist {"""),
   ("""        // Save current values before mocing into coalesced
        let current_id = coalesce_entry.grid_entry.id;
        let current_relev = coalesce_entry.grid_entry.relev;
        let current_scoredist = coalesce_entry.scoredist;
""", ""))
ok("s_getmut", ("""        match coalesced.entry(current_id) {
            Entry::Occupied(mut already_coalesced) => {
                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                entry.insert(coalesce_entry);
            }
        }
""", """        if let Some(existing) = coalesced.get_mut(&current_id) {
            if current_scoredist > existing.scoredist && current_relev >= existing.grid_entry.relev {
                *existing = coalesce_entry;
            }
        } else {
            coalesced.insert(current_id, coalesce_entry);
        }
"""))
ok("s_better", ("""        match coalesced.entry(current_id) {
            Entry::Occupied(mut already_coalesced) => {
                if current_scoredist > already_coalesced.get().scoredist
                    && current_relev >= already_coalesced.get().grid_entry.relev
                {
                    already_coalesced.insert(coalesce_entry);
                }
            }
            Entry::Vacant(entry) => {
                entry.insert(coalesce_entry);
            }
        }
""", """        let better = match coalesced.get(&current_id) {
            Some(e) => current_scoredist > e.scoredist && current_relev >= e.grid_entry.relev,
            None => true,
        };
        if better {
            coalesced.insert(current_id, coalesce_entry);
        }
"""))
ok("s_modify", ("""        if current_scoredist < min_scoredist {
            min_scoredist = current_scoredist;
        }
        previous_id = Some(current_id);""", """        min_scoredist = min_scoredist.min(current_scoredist);
        previous_id = Some(current_id);"""))
ok("s_isnew", ("""        if previous_id != Some(current_id) {
            feature_count += 1;
        }
        if match_opts.proximity.is_none() && feature_count > bigger_max {
            break;
        }""", """        feature_count += (previous_id != Some(current_id)) as usize;
        if feature_count > bigger_max && match_opts.proximity.is_none() {
            break;
        }"""))
ok("s_sortby", ("""    contexts.sort_by_key(|context| {
        Reverse((
            OrderedFloat(context.relev),
            OrderedFloat(context.entries[0].scoredist),
            context.entries[0].grid_entry.x,
            context.entries[0].grid_entry.y,
            context.entries[0].grid_entry.id,
        ))
    });""", """    contexts.sort_by(|a, b| {
        OrderedFloat(b.relev)
            .cmp(&OrderedFloat(a.relev))
            .then_with(|| OrderedFloat(b.entries[0].scoredist).cmp(&OrderedFloat(a.entries[0].scoredist)))
            .then_with(|| b.entries[0].grid_entry.x.cmp(&a.entries[0].grid_entry.x))
            .then_with(|| b.entries[0].grid_entry.y.cmp(&a.entries[0].grid_entry.y))
            .then_with(|| b.entries[0].grid_entry.id.cmp(&a.entries[0].grid_entry.id))
    });"""))
ok("s_sortrev2", ("""    contexts.sort_by_key(|context| {
        Reverse((
            OrderedFloat(context.relev),
            OrderedFloat(context.entries[0].scoredist),
            context.entries[0].grid_entry.x,
            context.entries[0].grid_entry.y,
            context.entries[0].grid_entry.id,
        ))
    });""", """    contexts.sort_by_key(|context| {
        let first = &context.entries[0];
        (
            Reverse(OrderedFloat(context.relev)),
            Reverse(OrderedFloat(first.scoredist)),
            Reverse(first.grid_entry.x),
            Reverse(first.grid_entry.y),
            Reverse(first.grid_entry.id),
        )
    });"""))
ok("s_take", ("""    contexts.truncate(MAX_CONTEXTS);
    Ok(contexts)""", """    Ok(contexts.into_iter().take(MAX_CONTEXTS).collect())"""))
ok("s_intovalues", ("""    let mut contexts: Vec<CoalesceContext> = coalesced
        .iter()
        .map(|(_, entry)| CoalesceContext {
            entries: vec![entry.clone()],
            mask: entry.mask,
            relev: entry.grid_entry.relev,
        })
        .collect();""", """    let mut contexts: Vec<CoalesceContext> = Vec::with_capacity(coalesced.len());
    for (_, entry) in coalesced {
        contexts.push(CoalesceContext {
            mask: entry.mask,
            relev: entry.grid_entry.relev,
            entries: vec![entry],
        });
    }"""))
ok("s_loophelper", ("        let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);\n", "        let coalesce_entry = first_entry(&grid, subquery, match_opts);\n"),
   ("fn coalesce_single<T", """fn first_entry<T: Borrow<GridStore> + Clone>(grid: &MatchEntry, subquery: &PhrasematchSubquery<T>, match_opts: &MatchOpts) -> CoalesceEntry {
    grid_to_coalesce_entry(grid, subquery, match_opts, 0)
}

fn coalesce_single<T"""))
ok("s_iternext", ("    for grid in grids {\n        let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);", "    let mut grids = grids;\n    while let Some(grid) = grids.next() {\n        let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);"))
ok("s_map", ("    for grid in grids {\n        let coalesce_entry = grid_to_coalesce_entry(&grid, subquery, match_opts, 0);", "    for coalesce_entry in grids.map(|grid| grid_to_coalesce_entry(&grid, subquery, match_opts, 0)) {"))
# ---- coalesce_multi
ok("m_compat", ("""                if subquery.idx == subquery_b.idx
                    || subquery.store.borrow().zoom < subquery_b.store.borrow().zoom
                {
                    None
                } else {
                    Some(subquery_b.store.borrow().zoom)
                }
            })""", """                let other = subquery_b.store.borrow().zoom;
                if subquery.idx != subquery_b.idx && other <= subquery.store.borrow().zoom {
                    Some(other)
                } else {
                    None
                }
            })"""))
ok("m_compat2", ("""            .filter_map(|subquery_b| {
                if subquery.idx == subquery_b.idx
                    || subquery.store.borrow().zoom < subquery_b.store.borrow().zoom
                {
                    None
                } else {
                    Some(subquery_b.store.borrow().zoom)
                }
            })""", """            .filter(|b| subquery.idx != b.idx && subquery.store.borrow().zoom >= b.store.borrow().zoom)
            .map(|b| b.store.borrow().zoom)"""))
ok("m_zoomvar", ("        let grids = subquery.store.borrow().streaming_get_matching(\n            &subquery.match_keys[0].key,\n            &zoom_adjusted_match_options,", "        let store: &GridStore = subquery.store.borrow();\n        let grids = store.streaming_get_matching(\n            &subquery.match_keys[0].key,\n            &zoom_adjusted_match_options,"))
ok("m_shift", ("""                let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - *other_zoom);
                let other_zxy = (
                    *other_zoom,
                    entries[0].grid_entry.x / scale_factor,
                    entries[0].grid_entry.y / scale_factor,
                );""", """                let shift = subquery.store.borrow().zoom - *other_zoom;
                let other_zxy = (
                    *other_zoom,
                    entries[0].grid_entry.x >> shift,
                    entries[0].grid_entry.y >> shift,
                );"""))
ok("m_continue", ("""                if let Some(already_coalesced) = coalesced.get(&other_zxy) {
                    let mut prev_mask = 0;""", """                let already_coalesced = match coalesced.get(&other_zxy) {
                    Some(a) => a,
                    None => continue,
                };
                {
                    let mut prev_mask = 0;"""))
ok("m_flat", ("""                    for parent_context in already_coalesced {
                        for parent_entry in &parent_context.entries {
                            // this cover""", """                    for parent_context in already_coalesced.iter() {
                        for parent_entry in parent_context.entries.iter() {
                            // this cover"""))
ok("m_replace", ("""                                entries.pop();
                                entries.push(parent_entry.clone());
                                // Update the context-level aggregate relev
                                context_relevance -= prev_relev;
                                context_relevance += parent_entry.grid_entry.relev;
""", """                                if let Some(last) = entries.last_mut() {
                                    *last = parent_entry.clone();
                                }
                                context_relevance = context_relevance - prev_relev + parent_entry.grid_entry.relev;
"""))
ok("m_common", ("""                                prev_mask = parent_entry.mask;
                                prev_relev = parent_entry.grid_entry.relev;
                            } else if (context_mask & parent_entry.mask) == 0 {
                                entries.push(parent_entry.clone());

                                context_relevance += parent_entry.grid_entry.relev;
                                context_mask = context_mask | parent_entry.mask;

                                prev_mask = parent_entry.mask;
                                prev_relev = parent_entry.grid_entry.relev;
                            }""", """                            } else if (context_mask & parent_entry.mask) == 0 {
                                entries.push(parent_entry.clone());

                                context_relevance += parent_entry.grid_entry.relev;
                                context_mask |= parent_entry.mask;
                            } else {
                                continue;
                            }
                            prev_mask = parent_entry.mask;
                            prev_relev = parent_entry.grid_entry.relev;"""))
ok("m_lastflag", ("""    for (i, subquery) in stack.iter().enumerate() {""", """    let last = stack.len() - 1;
    for (i, subquery) in stack.iter().enumerate() {"""), ("if i == (stack.len() - 1) {", "if i == last {"))
ok("m_ctxonce", ("""                if max_relevance - context_relevance < 0.25 {
                    contexts.push(CoalesceContext {
                        entries,
                        mask: context_mask,
                        relev: context_relevance,
                    });
                }
            } else if i == 0 || entries.len() > 1 {
                if let Some(already_coalesced) = to_add_to_coalesced.get_mut(&zxy) {
                    already_coalesced.push(CoalesceContext {
                        entries,
                        mask: context_mask,
                        relev: context_relevance,
                    });
                } else {
                    to_add_to_coalesced.insert(
                        zxy,
                        vec![CoalesceContext {
                            entries,
                            mask: context_mask,
                            relev: context_relevance,
                        }],
                    );
                }
            }""", """                if max_relevance - context_relevance < 0.25 {
                    contexts.push(CoalesceContext {
                        entries,
                        mask: context_mask,
                        relev: context_relevance,
                    });
                }
            } else if i == 0 || entries.len() > 1 {
                let context = CoalesceContext { entries, mask: context_mask, relev: context_relevance };
                if let Some(already_coalesced) = to_add_to_coalesced.get_mut(&zxy) {
                    already_coalesced.push(context);
                } else {
                    to_add_to_coalesced.insert(zxy, vec![context]);
                }
            }"""))
ok("m_sortby", ("""    contexts.sort_by_key(|context| {
        (
            Reverse(OrderedFloat(context.relev)),
            Reverse(OrderedFloat(context.entries[0].scoredist)),
            context.entries[0].idx,
            Reverse(context.entries[0].grid_entry.x),
            Reverse(context.entries[0].grid_entry.y),
            Reverse(context.entries[0].grid_entry.id),
        )
    });""", """    contexts.sort_by(|a, b| {
        let (ea, eb) = (&a.entries[0], &b.entries[0]);
        OrderedFloat(b.relev)
            .cmp(&OrderedFloat(a.relev))
            .then(OrderedFloat(eb.scoredist).cmp(&OrderedFloat(ea.scoredist)))
            .then(ea.idx.cmp(&eb.idx))
            .then(eb.grid_entry.x.cmp(&ea.grid_entry.x))
            .then(eb.grid_entry.y.cmp(&ea.grid_entry.y))
            .then(eb.grid_entry.id.cmp(&ea.grid_entry.id))
    });"""))
ok("m_flatten", ("""    for (_, matched) in coalesced {
        for context in matched {
            if max_relevance - context.relev < 0.25 {
                contexts.push(context);
            }
        }
    }
""", """    contexts.extend(
        coalesced
            .into_iter()
            .flat_map(|(_, matched)| matched)
            .filter(|context| max_relevance - context.relev < 0.25),
    );
"""))
ok("m_stacksort", ("    stack.sort_by_key(|subquery| (subquery.store.borrow().zoom, subquery.idx));", "    stack.sort_by(|a, b| a.store.borrow().zoom.cmp(&b.store.borrow().zoom).then_with(|| a.idx.cmp(&b.idx)));"))
ok("m_pushcount", ("""                if entries.len() == 1 {
                    // Slightly penalize contexts that have no stacking
                    context_relevance -= 0.01;
                } else if entries[0].mask > entries[1].mask {
                    // Slightly penalize contexts in ascending order
                    context_relevance -= 0.01
                }
""", """                let ascending = match entries.get(1) {
                    None => true,
                    Some(second) => entries[0].mask > second.mask,
                };
                if ascending {
                    context_relevance -= 0.01;
                }
"""))
# ---- tree
ok("t_point", ("""        for context in contexts.iter() {
            let point = [context.entries[0].grid_entry.x, context.entries[0].grid_entry.y];
            builder.add(&point);
        }""", """        for i in 0..contexts.len() {
            let first = &contexts[i].entries[0].grid_entry;
            builder.add(&[first.x, first.y]);
        }"""))
ok("t_prox", ("""        let contains_prox = if let Some(prox) = match_opts.proximity {
            subquery.store.borrow().bboxes.iter().any(|bbox| {
                bbox[0] <= prox[0] && bbox[2] >= prox[0] && bbox[1] <= prox[1] && bbox[3] >= prox[1]
            })
        } else {
            false
        };""", """        let contains_prox = match_opts.proximity.map_or(false, |[px, py]| {
            subquery
                .store
                .borrow()
                .bboxes
                .iter()
                .any(|&[w, n, e, s]| w <= px && px <= e && n <= py && py <= s)
        });"""))
ok("t_proxloop", ("""        let contains_prox = if let Some(prox) = match_opts.proximity {
            subquery.store.borrow().bboxes.iter().any(|bbox| {
                bbox[0] <= prox[0] && bbox[2] >= prox[0] && bbox[1] <= prox[1] && bbox[3] >= prox[1]
            })
        } else {
            false
        };""", """        let mut contains_prox = false;
        if let Some(prox) = match_opts.proximity {
            for bbox in subquery.store.borrow().bboxes.iter() {
                if (bbox[0]..=bbox[2]).contains(&prox[0]) && (bbox[1]..=bbox[3]).contains(&prox[1]) {
                    contains_prox = true;
                    break;
                }
            }
        }"""))
ok("t_quotafn", ("""                                if one_word_range_count < ONE_WORD_RANGE_QUOTA {
                                    one_word_range_count += 1;
                                } else {
                                    continue;
                                }""", """                                if one_word_range_count >= ONE_WORD_RANGE_QUOTA {
                                    continue;
                                }
                                one_word_range_count += 1;"""))
ok("t_quotahelper", ("""                            if all_high_zoom_count < ALL_HIGH_ZOOM_QUOTA {
                                all_high_zoom_count += 1;
                            } else {
                                continue;
                            }""", """                            if !within(&mut all_high_zoom_count, ALL_HIGH_ZOOM_QUOTA) {
                                continue;
                            }"""), ("fn penalize_multi_context", """fn within(count: &mut usize, quota: usize) -> bool {
    if *count < quota {
        *count += 1;
        true
    } else {
        false
    }
}

fn penalize_multi_context"""))
ok("t_slowvar", ("""                for key_group in subquery.match_keys.iter() {
                    if is_single || !data_cache""", """                let slow = subquery.store.borrow().might_be_slow();
                for key_group in subquery.match_keys.iter() {
                    if is_single || !data_cache"""), ("if subquery.store.borrow().might_be_slow() && !key_group.nearby_only {\n                            if is_range", "if slow && !key_group.nearby_only {\n                            if is_range"))
ok("t_continue", ("""                    if is_single || !data_cache.contains_key(&key_group.id) {
                        let match_opts""", """                    if !is_single && data_cache.contains_key(&key_group.id) {
                        continue;
                    }
                    {
                        let match_opts"""))
ok("t_isempty", ("while steps.len() > 0 && !complete {", "while !steps.is_empty() && !complete {"))
ok("t_letelse", ("""                if contexts.len() >= contexts.max_size {
                    if step.node.max_relev
                        <= contexts.peek_min().expect("contexts can't be empty").relev
                    {
                        complete = true;
                        break;
                    }
                }
""", """                let worst = contexts.peek_min().map(|c| c.relev);
                if contexts.len() >= contexts.max_size && step.node.max_relev <= worst.unwrap() {
                    complete = true;
                    break;
                }
"""))
ok("t_uniqkey", ("""                        if unique_keys.insert((key_group.id, is_single)) {
                            enqueued_work_in_this_iter = true;
                            keys.push(KeyFetchStep {""", """                        let fresh = !unique_keys.contains(&(key_group.id, is_single));
                        if fresh {
                            unique_keys.insert((key_group.id, is_single));
                            enqueued_work_in_this_iter = true;
                            keys.push(KeyFetchStep {"""))
ok("t_maxf", ("""                                    if new_context.relev > relev_so_far {
                                        relev_so_far = new_context.relev;
                                    }
""", """                                    relev_so_far = if new_context.relev > relev_so_far { new_context.relev } else { relev_so_far };
"""))
ok("t_parent", ("""                                    let mut new_context = parent_context.clone();
                                    new_context.entries.insert(0, entry.clone());

                                    new_context.mask = new_context.mask | subquery.mask;
                                    new_context.relev += entry.grid_entry.relev;""", """                                    let mut entries = Vec::with_capacity(parent_context.entries.len() + 1);
                                    entries.push(entry.clone());
                                    entries.extend(parent_context.entries.iter().cloned());
                                    let new_context = CoalesceContext {
                                        entries,
                                        mask: parent_context.mask | subquery.mask,
                                        relev: parent_context.relev + entry.grid_entry.relev,
                                    };"""))
ok("t_ifletdata", ("""                        let grids = match data_cache.get(&key_group.id) {
                            Some(data) => data,
                            None => {
                                // we must have skipped collecting this data
                                continue;
                            }
                        };
""", """                        if !data_cache.contains_key(&key_group.id) {
                            continue;
                        }
                        let grids = &data_cache[&key_group.id];
"""))
ok("t_overlapfn", ("""                                let overlaps = child_bboxes.iter().any(|bbox| {
                                    state
                                        .bush
                                        .search_range(bbox[0], bbox[1], bbox[2], bbox[3])
                                        .next()
                                        .is_some()
                                });

                                if !overlaps {""", """                                let apart = child_bboxes.iter().all(|bbox| {
                                    state
                                        .bush
                                        .search_range(bbox[0], bbox[1], bbox[2], bbox[3])
                                        .next()
                                        .is_none()
                                });

                                if apart {"""))
ok("t_bboxeszoom", ("""                                let zoomed_bboxes: Vec<_>;
                                let child_bboxes = if child_zoom == current_zoom {
                                    &child_store.bboxes
                                } else {
                                    zoomed_bboxes = child_store
                                        .bboxes
                                        .iter()
                                        .map(|bbox| {
                                            adjust_bbox_zoom(*bbox, child_zoom, current_zoom)
                                        })
                                        .collect();
                                    &zoomed_bboxes
                                };""", """                                let child_bboxes: Vec<_> = child_store
                                    .bboxes
                                    .iter()
                                    .map(|bbox| {
                                        if child_zoom == current_zoom { *bbox } else { adjust_bbox_zoom(*bbox, child_zoom, current_zoom) }
                                    })
                                    .collect();"""))
ok("t_extend", ("""                    for entry in coalesced {
                        step_contexts.push(entry);
                    }
""", """                    coalesced.for_each(|entry| { step_contexts.push(entry); });
"""))
ok("t_collapse", ("""    for (_key, val) in phrasematch_map {
        phrasematch_results.push(val);
    }
    phrasematch_results""", """    phrasematch_results.extend(phrasematch_map.into_iter().map(|(_, v)| v));
    phrasematch_results"""))
ok("t_collapse2", ("""        match phrasematch_map.entry(group_hash) {
            IndexMapEntry::Vacant(entry) => {
                entry.insert(phrasematch);
            }
            IndexMapEntry::Occupied(mut grouped_phrasematch) => {
                grouped_phrasematch.get_mut().match_keys.push(phrasematch.match_keys[0].clone());
            }
        }""", """        match phrasematch_map.entry(group_hash) {
            IndexMapEntry::Occupied(mut grouped) => {
                let key = phrasematch.match_keys[0].clone();
                let group: &mut PhrasematchSubquery<T> = grouped.get_mut();
                group.match_keys.push(key);
            }
            IndexMapEntry::Vacant(entry) => {
                entry.insert(phrasematch);
            }
        }"""))
ok("t_singleids", ("""    let mut ids: Vec<_> = coalesced.keys().cloned().collect();
    ids.sort();""", """    let mut ids = coalesced.keys().copied().collect::<Vec<u32>>();
    ids.sort_unstable();"""))
ok("t_penmatch", ("""    if context.entries.len() == 1 || context.entries[0].mask > context.entries[1].mask {
        context.relev -= 0.01
    }""", """    let penalized = match context.entries.as_slice() {
        [_] => true,
        [first, second, ..] => first.mask > second.mask,
        [] => context.entries[0].mask > context.entries[1].mask,
    };
    if penalized {
        context.relev -= 0.01
    }"""))
ok("t_pushall", ("""            for context in phrasematch_contexts {
                contexts.push(context);
            }

            for step in next_steps {
                steps.push(step);
            }""", """            for step in next_steps {
                steps.push(step);
            }
            for context in phrasematch_contexts {
                contexts.push(context);
            }"""))
ok("t_scale", ("""                                let prev_zoom_xy = (
                                    grid.grid_entry.x / scale_factor,
                                    grid.grid_entry.y / scale_factor,
                                );

                                let entry = grid_to_coalesce_entry(
                                    &grid,
                                    &subquery,
                                    &step.match_opts,
                                    key_group.id,
                                );
""", """                                let entry = grid_to_coalesce_entry(
                                    &grid,
                                    &subquery,
                                    &step.match_opts,
                                    key_group.id,
                                );
                                let prev_zoom_xy = (
                                    entry.grid_entry.x / scale_factor,
                                    entry.grid_entry.y / scale_factor,
                                );
"""))

# ---- stackable
K = "rust-src/src/gridstore/stackable.rs"
def okk(name, *e): ok(name, *e, file=K)
okk("k_accept", ("""            if (node.mask & phrasematch.mask) == 0
                && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false
                && node.bmask.contains(phrasematch.idx as usize) == false
            {""", """            if compatible(&node, phrasematch) {"""),
    ("fn binned_stackable<", """fn compatible<T: Borrow<GridStore> + Clone + Debug>(
    node: &StackableNode<'_, T>,
    phrasematch: &PhrasematchSubquery<T>,
) -> bool {
    node.mask & phrasematch.mask == 0
        && !phrasematch.non_overlapping_indexes.contains(node.idx as usize)
        && !node.bmask.contains(phrasematch.idx as usize)
}

fn binned_stackable<"""))
okk("k_filter", ("        for phrasematch in phrasematch_group.phrasematches.iter() {\n            if (node.mask & phrasematch.mask) == 0\n                && phrasematch", "        for phrasematch in phrasematch_group.phrasematches.iter().filter(|p| (mask & p.mask) == 0) {\n            if phrasematch"))
okk("k_idxloop", ("""    for (type_idx, phrasematch_group) in
        binned_phrasematches.iter().enumerate().skip(start_type_idx)
    {""", """    for type_idx in start_type_idx..binned_phrasematches.len() {
        let phrasematch_group = &binned_phrasematches[type_idx];"""))
okk("k_union", ("""                let mut target_bmask: FixedBitSet = node.bmask.clone();
                target_bmask.union_with(&phrasematch.non_overlapping_indexes);
""", """                let target_bmask = {
                    let mut b = node.bmask.clone();
                    b.union_with(&phrasematch.non_overlapping_indexes);
                    b
                };
"""))
okk("k_noadd", ("""                if let Some(arena_index) = arena.add(child_node) {
                    node.children.push(arena_index);

                    if max_relev > node.max_relev {
                        node.max_relev = max_relev;
                    }
                }""", """                let arena_index = match arena.add(child_node) {
                    Some(i) => i,
                    None => continue,
                };
                node.children.push(arena_index);
                if node.max_relev < max_relev {
                    node.max_relev = max_relev;
                }"""))
okk("k_max", ("""        if phrasematch.weight > *bin.max_relev {
            bin.max_relev = OrderedFloat(phrasematch.weight);
        }
        bin.phrasematches.push(phrasematch);""", """        bin.phrasematches.push(phrasematch);
        bin.max_relev = std::cmp::max(bin.max_relev, OrderedFloat(phrasematch.weight));"""))
okk("k_sortby", ("v.phrasematches.sort_by_key(|pm| (Reverse(OrderedFloat(pm.weight)), pm.idx));", "v.phrasematches.sort_by(|a, b| OrderedFloat(b.weight).cmp(&OrderedFloat(a.weight)).then(a.idx.cmp(&b.idx)));"))
okk("k_values", ("""        .map(|(_k, mut v)| {
            v.phrasematches.sort""", """        .map(|(_, bin)| {
            let mut v = bin;
            v.phrasematches.sort"""))
okk("k_addif", ("""            if old_total_leaves < self.soft_max {
                // this was an unconstrained add, so just update min if necessary and move on
                if max_relev < self.min_relev {
                    self.min_relev = max_relev;
                }
            } else {
                // this was a constrained add. if we inserted into the min bucket, we're done,
                // but if we added to some better bin than that, we may be able to cull the min
                // bucket and choose a new min
                if max_relev > self.min_relev {""", """            if old_total_leaves < self.soft_max {
                self.min_relev = self.min_relev.min(max_relev);
            } else {
                if self.min_relev < max_relev {"""))
okk("k_entry", ("""            let mut relev_entry = self.relev_map.entry(max_relev).or_insert((0, Vec::new()));

            if is_leaf {
                relev_entry.0 += 1;
                self.total_leaves += 1;
            }
            relev_entry.1.push(arena_index);
""", """            let leaves = if is_leaf { 1 } else { 0 };
            self.total_leaves += leaves;
            let (count, nodes) = self.relev_map.entry(max_relev).or_insert_with(|| (0, Vec::new()));
            *count += leaves;
            nodes.push(arena_index);
"""))
okk("k_cull", ("            for node_index in min_nodes {\n                self.arena.remove(node_index);\n            }", "            min_nodes.into_iter().for_each(|i| {\n                self.arena.remove(i);\n            });"))
okk("k_return", ("""        if old_total_leaves >= self.soft_max && max_relev < self.min_relev {
            // we're constrained, and this is worse than our worst, so don't keep it
            None
        } else {""", """        let keep = old_total_leaves < self.soft_max || max_relev >= self.min_relev;
        if !keep {
            None
        } else {"""))
okk("k_sumfold", ("        sum_so_far = sum_so_far + *bin.max_relev;", "        let weight = *bin.max_relev;\n        sum_so_far = weight + sum_so_far;"))

# ---- builder
B = "rust-src/src/gridstore/builder.rs"
def okb(name, *e): ok(name, *e, file=B)
okb("b_nogroup", ("""        for (zcoord, zc_values) in
            &rs_values.into_iter().group_by(|value| interleave_morton(value.x, value.y))
        {
            let id_phrases =
                zc_values.map(|value| (value.id << 8) | (value.source_phrase_hash as u32));
            match rs_entry.entry(zcoord) {
                HmEntry::Vacant(e) => {
                    e.insert(id_phrases.collect());
                }
                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }
            }
        }""", """        for value in rs_values {
            rs_entry
                .entry(interleave_morton(value.x, value.y))
                .or_insert_with(SmallVec::new)
                .push((value.id << 8) | u32::from(value.source_phrase_hash));
        }"""))
okb("b_idhelper", ("                zc_values.map(|value| (value.id << 8) | (value.source_phrase_hash as u32));", "                zc_values.map(|value| id_hash(value.id, value.source_phrase_hash));"),
    ("let id_hash = smallvec![(id << 8) | (source_phrase_hash as u32)];", "let id_hash = smallvec![id_hash(id, source_phrase_hash)];"),
    ("fn copy_entries(", "fn id_hash(id: u32, hash: u8) -> u32 {\n    (id << 8) | (hash as u32)\n}\n\nfn copy_entries("))
okb("b_copyslice", ("            zcoord_entry.extend(values.iter().cloned());", "            zcoord_entry.extend_from_slice(values);"))
okb("b_copyfor", ("            zcoord_entry.extend(values.iter().cloned());", "            for v in values.iter() {\n                zcoord_entry.push(*v);\n            }"))
okb("b_mapcoords", ("""            let encoded_coord = gridstore_format::Coord { coord, ids: encoded_ids.clone() };
            coords.push(encoded_coord);""", """            coords.push(gridstore_format::Coord { ids: *encoded_ids, coord });"""))
okb("b_idcache", ("""            let encoded_ids =
                id_lists.entry(ids.clone()).or_insert_with(|| builder.write_fixed_vec(&ids));

            let encoded_coord = gridstore_format::Coord { coord, ids: encoded_ids.clone() };""", """            let encoded_ids = match id_lists.get(&ids) {
                Some(offset) => *offset,
                None => {
                    let offset = builder.write_fixed_vec(&ids);
                    id_lists.insert(ids, offset);
                    offset
                }
            };

            let encoded_coord = gridstore_format::Coord { coord, ids: encoded_ids };"""))
okb("b_insert", ("""        let mut to_insert = BuilderEntry::new();
        extend_entries(&mut to_insert, values);
        self.data.insert(key.to_owned(), to_insert);
        Ok(())""", """        let entry = self.data.entry(key.clone()).or_insert_with(BuilderEntry::new);
        entry.clear();
        extend_entries(entry, values);
        Ok(())"""))
okb("b_compact", ("""            match relevance_score_entry.entry(zcoord) {
                HmEntry::Vacant(e) => {
                    e.insert(id_hash.clone());
                }
                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend_from_slice(&id_hash);
                }
            }""", """            relevance_score_entry.entry(zcoord).or_insert_with(SmallVec::new).extend_from_slice(&id_hash);"""), ("let id_hash = smallvec!", "let id_hash: SmallVec<[u32; 4]> = smallvec!"))
okb("b_destruct", ("        for pair in coords {\n            let zcoord = interleave_morton(pair.0, pair.1);", "        for &(x, y) in coords {\n            let zcoord = interleave_morton(x, y);"))
okb("b_renum", ("""            let new_key = GridKey { phrase_id: *new_phrase_id, ..key };
            match self.data.entry(new_key) {
                Entry::Vacant(v) => {
                    v.insert(value);
                }
                Entry::Occupied(_) => {
                    return Err(Error::from(BuildError::DuplicateRenumberEntry {
                        target_id: *new_phrase_id,
                    }))
                }
            };""", """            let target_id = *new_phrase_id;
            let new_key = GridKey { phrase_id: target_id, lang_set: key.lang_set };
            if self.data.contains_key(&new_key) {
                return Err(Error::from(BuildError::DuplicateRenumberEntry { target_id }));
            }
            self.data.insert(new_key, value);"""))
okb("b_finkey", ("""                let mut grouped_entry =
                    lang_set_map.entry(grid_key.lang_set).or_insert_with(|| BuilderEntry::new());
                copy_entries(&value, &mut grouped_entry);
                // figure out the value
                let db_data = get_encoded_value(value)?;
                db.put(&db_key, &db_data)?;""", """                copy_entries(
                    &value,
                    lang_set_map.entry(grid_key.lang_set).or_insert_with(BuilderEntry::new),
                );
                db.put(&db_key, get_encoded_value(value)?)?;"""))
okb("b_putfn", ("""                db_key.clear();
                grid_key.write_to(TypeMarker::SinglePhrase, &mut db_key)?;
""", """                db_key = key_bytes(&grid_key, TypeMarker::SinglePhrase)?;
"""), ("""                    db_key.clear();
                    let group_key = GridKey { phrase_id: group_id, lang_set };
                    group_key.write_to(TypeMarker::PrefixBin, &mut db_key)?;
""", """                    let group_key = GridKey { phrase_id: group_id, lang_set };
                    db_key = key_bytes(&group_key, TypeMarker::PrefixBin)?;
"""), ("impl GridStoreBuilder {", """fn key_bytes(key: &GridKey, marker: TypeMarker) -> Result<Vec<u8>, Error> {
    let mut bytes = Vec::with_capacity(MAX_KEY_LENGTH);
    key.write_to(marker, &mut bytes)?;
    Ok(bytes)
}

impl GridStoreBuilder {"""), ("let mut db_key: Vec<u8> = Vec::with_capacity(MAX_KEY_LENGTH);", "let mut db_key: Vec<u8>;"))
okb("b_bounds", ("""        let mut encoded_boundaries: Vec<u8> = Vec::with_capacity(self.bin_boundaries.len() * 4);
        for boundary in self.bin_boundaries {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }""", """        let encoded_boundaries: Vec<u8> =
            self.bin_boundaries.iter().flat_map(|b| b.to_le_bytes().to_vec()).collect();"""))
okb("b_sorttwo", ("""    let mut items: Vec<(_, _)> = value.into_iter().collect();
    items.sort_by(|(relevance_score_a, _), (relevance_score_b, _)| {
        relevance_score_b.cmp(&relevance_score_a)
    });
""", """    let mut items: Vec<(_, _)> = value.into_iter().collect();
    items.sort_by(|a, b| a.0.cmp(&b.0).reverse());
"""))

# ---- store
S = "rust-src/src/gridstore/store.rs"
def oks(name, *e): ok(name, *e, file=S)
oks("r_langhelper", ("""            let key_lang_partial = &key[5..];
            let lang_set: u128 = if key_lang_partial.len() == 0 {
                // 0-length language array is the shorthand for "matches everything"
                std::u128::MAX
            } else {
                let mut key_lang_full = [0u8; 16];
                key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);

                (&key_lang_full[..]).read_u128::<BigEndian>()?
            };

            Ok(GridKey { phrase_id, lang_set })""", """            Ok(GridKey { phrase_id, lang_set: read_lang(&key[5..])? })"""),
    ("struct QueueElement<T", """fn read_lang(bytes: &[u8]) -> Result<u128, Error> {
    if bytes.is_empty() {
        return Ok(std::u128::MAX);
    }
    let mut full = [0u8; 16];
    full[(16 - bytes.len())..].copy_from_slice(bytes);
    Ok(u128::from_be_bytes(full))
}

struct QueueElement<T"""))
oks("r_coordshelper", ("""                        MatchOpts { bbox: Some(bbox), proximity: None, .. } => {
                            match spatial::bbox_filter(coords_vec, *bbox) {
                                Some(v) => Some(Box::new(v)
                                    as Box<dyn Iterator<Item = gridstore_format::Coord>>),
                                None => None,
                            }
                        }""", """                        MatchOpts { bbox: Some(bbox), proximity: None, .. } => {
                            spatial::bbox_filter(coords_vec, *bbox)
                                .map(|v| Box::new(v) as Box<dyn Iterator<Item = gridstore_format::Coord>>)
                        }"""))
oks("r_penalty", ("""                                relev: relev
                                    * (if matches_language || within_radius {
                                        1f64
                                    } else {
                                        0.96f64
                                    }),""", """                                relev: if !matches_language && !within_radius {
                                    relev * 0.96f64
                                } else {
                                    relev
                                },"""))
oks("r_dist", ("""                    let (distance, within_radius, scoredist) = match &match_opts {
                        MatchOpts { proximity: Some(prox_pt), zoom, .. } => {
                            let distance""", """                    let (distance, within_radius, scoredist) = match (&match_opts.proximity, &match_opts.zoom) {
                        (Some(prox_pt), zoom) => {
                            let distance"""))
oks("r_cmp", ("                scoredist1.partial_cmp(scoredist2).unwrap() == Ordering::Greater", "                scoredist1 > scoredist2"))
oks("r_marker", ("""                if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
                    TypeMarker::PrefixBin
                } else {
                    TypeMarker::SinglePhrase
                }""", """                let bounds = &self.bin_boundaries;
                if !bounds.contains(&end) || !bounds.contains(&start) {
                    TypeMarker::SinglePhrase
                } else {
                    TypeMarker::PrefixBin
                }"""))
oks("r_fromfn", ("""            if let Some(mut best_entry) = pri_queue.peek_max_mut() {
                if let Some(mut next_entry) = best_entry.entry_iter.next() {
                    std::mem::swap(&mut next_entry, &mut (best_entry.next_entry));
                    Some(next_entry)
                } else {
                    let best_entry = best_entry.pop();
                    Some(best_entry.next_entry)
                }
            } else {
                None
            }""", """            let mut best_entry = pri_queue.peek_max_mut()?;
            match best_entry.entry_iter.next() {
                Some(next_entry) => {
                    Some(std::mem::replace(&mut best_entry.next_entry, next_entry))
                }
                None => Some(best_entry.pop().next_entry),
            }"""))
oks("r_pop", ("""            if let Some(mut best_entry) = pri_queue.peek_max_mut() {
                if let Some(mut next_entry) = best_entry.entry_iter.next() {
                    std::mem::swap(&mut next_entry, &mut (best_entry.next_entry));
                    Some(next_entry)
                } else {
                    let best_entry = best_entry.pop();
                    Some(best_entry.next_entry)
                }
            } else {
                None
            }""", """            let QueueElement { next_entry, mut entry_iter } = pri_queue.pop_max()?;
            if let Some(following) = entry_iter.next() {
                pri_queue.push(QueueElement { next_entry: following, entry_iter });
            }
            Some(next_entry)"""))
oks("r_whilekeys", ("""        let db_iter = self
            .db
            .iterator(IteratorMode::From(&db_key, Direction::Forward))
            .take_while(|(k, _)| range_key.matches_key(fetch_type_marker, k).unwrap());
""", """        let db_iter = self.db.iterator(IteratorMode::From(&db_key, Direction::Forward));
"""), ("""        for (key, value) in db_iter {
            let matches_language""", """        for (key, value) in db_iter {
            if !range_key.matches_key(fetch_type_marker, &key).unwrap() {
                break;
            }
            let matches_language"""))
oks("r_bounds", ("""                    .chunks(4)
                    .filter_map(|chunk| {
                        if chunk.len() == 4 {
                            Some(u32::from_le_bytes(chunk.try_into().unwrap()))
                        } else {
                            None
                        }
                    })""", """                    .chunks_exact(4)
                    .map(|chunk| u32::from_le_bytes(chunk.try_into().unwrap()))"""))
oks("r_get", ("""        Ok(match self.db.get(&db_key)? {
            Some(value) => Some(decode_value(value)),
            None => None,
        })""", """        Ok(self.db.get(&db_key)?.map(decode_value))"""))
oks("r_score", ("            let score = relev_score & 15;\n            (relev, score, rs_obj)", "            let score = relev_score % 16;\n            (relev, score, rs_obj)"))
oks("r_idmod", ("                            let source_phrase_hash = (id_comp & 255) as u8;\n                            GridEntry", "                            let source_phrase_hash = (id_comp % 256) as u8;\n                            GridEntry"))

# ---- common
N = "rust-src/src/gridstore/common.rs"
def okn(name, *e): ok(name, *e, file=N)
okn("n_lang", ("""        match self.lang_set {
            std::u128::MAX => { /* do nothing -- this is the all-languages marker */ }
            0 => {
                db_key.push(0);
            }
            _ => {
                let lang_set = self.lang_set.to_be_bytes();
                let iter = lang_set.iter().skip_while(|byte| **byte == 0u8);
                db_key.extend(iter);
            }
        }""", """        if self.lang_set == 0 {
            db_key.push(0);
        } else if self.lang_set != std::u128::MAX {
            let lang_set = self.lang_set.to_be_bytes();
            let skip = (self.lang_set.leading_zeros() / 8) as usize;
            db_key.extend_from_slice(&lang_set[skip..]);
        }"""))
okn("n_lang2", ("""                let iter = lang_set.iter().skip_while(|byte| **byte == 0u8);
                db_key.extend(iter);""", """                let first = lang_set.iter().position(|byte| *byte != 0).unwrap_or(0);
                db_key.extend_from_slice(&lang_set[first..]);"""))
okn("n_be", ("        db_key.write_u32::<BigEndian>(self.phrase_id)?;", "        db_key.extend_from_slice(&self.phrase_id.to_be_bytes());"))
okn("n_match", ("""        let key_phrase = (&db_key[1..]).read_u32::<BigEndian>()?;
        if db_key[0] != (type_marker as u8) {
            return Ok(false);
        }
        Ok(match self.match_phrase {
            MatchPhrase::Exact(phrase_id) => phrase_id == key_phrase,
            MatchPhrase::Range { start, end } => start <= key_phrase && key_phrase < end,
        })""", """        let key_phrase = (&db_key[1..]).read_u32::<BigEndian>()?;
        let right_type = db_key[0] == type_marker as u8;
        Ok(right_type
            && match self.match_phrase {
                MatchPhrase::Exact(phrase_id) => phrase_id == key_phrase,
                MatchPhrase::Range { start, end } => (start..end).contains(&key_phrase),
            })"""))
okn("n_mlang", ("        Ok(self.lang_set & key_lang_set != 0)", "        let shared = key_lang_set & self.lang_set;\n        Ok(shared > 0)"))
okn("n_nearby", ("""            if prox[0] < padding { 0 } else { prox[0] - padding }, // prevent overflows because this is unsigned
            if prox[1] < padding { 0 } else { prox[1] - padding }, // ditto""", """            prox[0].saturating_sub(padding),
            prox[1].saturating_sub(padding),"""))
okn("n_nearby2", ("""        let prox = if let Some(prox) = constrained.proximity {
            prox.clone()
        } else {
            return constrained;
        };
""", """        let prox = match self.proximity {
            None => return constrained,
            Some(p) => p,
        };
"""))
okn("n_clip", ("""        if let Some(old_box) = constrained.bbox {
            new_box = [
                std::cmp::max(old_box[0], new_box[0]),
                std::cmp::max(old_box[1], new_box[1]),
                std::cmp::min(old_box[2], new_box[2]),
                std::cmp::min(old_box[3], new_box[3]),
            ]
        }
""", """        if let Some([w, n, e, s]) = constrained.bbox {
            new_box[0] = new_box[0].max(w);
            new_box[1] = new_box[1].max(n);
            new_box[2] = new_box[2].min(e);
            new_box[3] = new_box[3].min(s);
        }
"""))
okn("n_adjust", ("""                        let adjusted_x = x * scale_multiplier + mid_coord_adjuster;
                        let adjusted_y = y * scale_multiplier + mid_coord_adjuster;

                        Some([adjusted_x, adjusted_y])""", """                        let scaled = |c: u16| c * scale_multiplier + mid_coord_adjuster;
                        Some([scaled(*x), scaled(*y)])"""))
okn("n_adjust2", ("""            let adjusted_proximity = match &self.proximity {
                Some([x, y]) => {
                    if target_z < self.zoom {""", """            let adjusted_proximity = match self.proximity.as_ref() {
                Some(&[ref x, ref y]) => {
                    if self.zoom > target_z {"""))

# ---- format
F = "rust-src/src/gridstore/gridstore_format.rs"
def okf(name, *e): ok(name, *e, file=F)
okf("f_lenhelper", *[("""        let loc = self.data.len();
        let mut len_buf = [0u8; 8];
        let len_len = (s.len() as u32).encode_var(&mut len_buf);
        self.data.extend_from_slice(&len_buf[..len_len]);
""", """        let loc = self.begin_vec(s.len());
""")] * 3, ("    pub fn finish(self) -> Vec<u8> {", """    fn begin_vec(&mut self, count: usize) -> usize {
        let loc = self.data.len();
        let mut len_buf = [0u8; 10];
        let used = (count as u32).encode_var(&mut len_buf[..]);
        self.data.extend_from_slice(&len_buf[0..used]);
        loc
    }

    pub fn finish(self) -> Vec<u8> {"""))
okf("f_foreach", ("""        for item in s {
            item.write_fixed_to(&mut self.data);
        }""", """        let data = &mut self.data;
        s.iter().for_each(|item| item.write_fixed_to(data));"""))
okf("f_root", ("""        let offset = FixedScalarOffset::new(self.data.as_ref().len() - T::SIZE);
        self.read_fixed_scalar(offset)""", """        let bytes = self.data.as_ref();
        T::read_fixed_from(bytes, FixedScalarOffset::new(bytes.len() - T::SIZE))"""))
okf("f_vechead", ("""        let (len, len_len) = u32::decode_var(&data[(offset.addr as usize)..]);
        let start = (offset.addr + len_len) as usize;
        FixedVec { data, start, len: len.try_into().unwrap(), phantom: PhantomData }""", """        let (len, start) = head(data, offset.addr);
        FixedVec { data, start, len, phantom: PhantomData }"""), ("""        let (len, len_len) = u32::decode_var(&data[(offset.addr as usize)..]);
        let start = (offset.addr + len_len) as usize;
        VarVec { data, start, len: len.try_into().unwrap(), phantom: PhantomData }""", """        let (len, start) = head(data, offset.addr);
        VarVec { data, start, len, phantom: PhantomData }"""), ("pub struct Writer {", """fn head(data: &[u8], addr: usize) -> (usize, usize) {
    let (len, used) = u32::decode_var(&data[addr..]);
    (len as usize, addr + used)
}

pub struct Writer {"""))
okf("f_getit", ("""        let offset = self.start + (pos * T::SIZE);
        T::read_fixed_from(self.data, FixedScalarOffset::new(offset))""", """        T::read_fixed_from(&self.data[self.start..], FixedScalarOffset::new(pos * T::SIZE))"""))
okf("f_rec", ("        let rec_size: usize = s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);", "        let rec_size = match s.iter().map(|obj| obj.get_min_size()).max() {\n            Some(n) => n,\n            None => 255,\n        };"))
okf("f_rec2", ("        let rec_size: usize = s.iter().map(|obj| obj.get_min_size()).max().unwrap_or(255);", "        let rec_size = s.iter().fold(None, |m: Option<usize>, obj| Some(m.map_or(obj.get_min_size(), |x| x.max(obj.get_min_size())))).unwrap_or(255);"))

# ---- spatial
P = "rust-src/src/gridstore/spatial.rs"
def okp(name, *e): ok(name, *e, file=P)
okp("p_inbox", *[("""        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {""", """        if (bbox[0]..=bbox[2]).contains(&x) && (bbox[1]..=bbox[3]).contains(&y) {""")] * 2)
okp("p_inbox2", ("""        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        }
        None""", """        let outside = x < bbox[0] || x > bbox[2] || y < bbox[1] || y > bbox[3];
        if outside { None } else { Some(grid) }"""))
okp("p_filter", ("""    Some((range.0..=range.1).filter_map(move |idx| {
        let grid = coords.get(idx as usize);
        let (x, y) = deinterleave_morton(grid.coord);
        if x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3] {
            return Some(coords.get(idx as usize));
        }
        None
    }))""", """    let (first, last) = range;
    Some((first..=last).map(move |idx| coords.get(idx as usize)).filter(move |grid| {
        let (x, y) = deinterleave_morton(grid.coord);
        x >= bbox[0] && x <= bbox[2] && y >= bbox[1] && y <= bbox[3]
    }))"""))
okp("p_search", ("""    let start = match coord_binary_search(&coords, max, 0) {
        Ok(v) => v,
        Err(_) => return None,
    };
    let mut end = match coord_binary_search(&coords, min, start) {
        Ok(v) => v,
        Err(_) => return None,
    };

    if end == (len as u32) {
        end -= 1;
    }""", """    let start = coord_binary_search(&coords, max, 0).ok()?;
    let end = coord_binary_search(&coords, min, start).ok()?;
    let end = if end == (len as u32) { end - 1 } else { end };"""))
okp("p_search2", ("""    if base == len - 1 {
        return Ok(base);
    }
    let base_coord = coords.get(base as usize).coord;
    if base_coord == val {
        Ok(base)
    } else {
        Ok(base + (base_coord > val) as u32)
    }""", """    let base_coord = coords.get(base as usize).coord;
    if base != len - 1 && base_coord > val {
        Ok(base + 1)
    } else {
        Ok(base)
    }"""))
okp("p_half", ("""        let half = size / 2;
        let mid = base + half;
        let coord = coords.get(mid as usize).coord;
        base = if coord < val { base } else { mid };
        size -= half;""", """        let half = size >> 1;
        let mid = base + half;
        if coords.get(mid as usize).coord >= val {
            base = mid;
        }
        size = size - half;"""))
okp("p_checks", ("""    let range_start = coords.get(0).coord;
    if min > range_start {
        return None;
    }
    let range_end = coords.get(len - 1).coord;
    if max < range_end {
        return None;
    }""", """    let (range_start, range_end) = (coords.get(0).coord, coords.get(len - 1).coord);
    if range_start < min || range_end > max {
        return None;
    }"""))
okp("p_closer", ("""    let coord_sets = head.into_iter().merge_by(tail.into_iter(), move |a, b| {
        let morton_distance_1 = (a.coord as i64 - prox_pt) as i64;
        let morton_distance_2 = (b.coord as i64 - prox_pt) as i64;
        morton_distance_1.abs() < morton_distance_2.abs()
    });

    Some(coord_sets)
}

/// Generate an Iterator for a bounding box and""", """    let distance = move |c: &Coord| (c.coord as i64 - prox_pt).abs();
    Some(head.merge_by(tail, move |a, b| distance(a) < distance(b)))
}

/// Generate an Iterator for a bounding box and"""))
