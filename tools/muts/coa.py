C="rust-src/src/gridstore/coalesce.rs"
T="rust-src/src/gridstore/stackable.rs"
FILTER=["coalesce::","stack::"]
MUTS=[
# ---- coalesce
("lenone","bug",C,"if stack.len() <= 1 {","if stack.len() < 1 {"),
("lentwo","bug",C,"if stack.len() <= 1 {","if stack.len() <= 2 {"),
("max41","bug",C,"if out.len() >= MAX_CONTEXTS {","if out.len() > MAX_CONTEXTS {"),
("gap","bug",C,"if max_relevance - context.relev >= 0.25 {\n                break;","if max_relevance - context.relev > 0.25 {\n                break;"),
("gapcont","bug",C,"if max_relevance - context.relev >= 0.25 {\n                break;","if max_relevance - context.relev >= 0.35 {\n                break;"),
("dedupid","bug",C,"let inserted = sets.insert(context.entries[0].tmp_id.into());","let inserted = sets.insert(context.entries[0].grid_entry.id.into());"),
("dupinv","bug",C,"if inserted {\n                out.push(context);","if inserted || context.mask != 0 {\n                out.push(context);"),
# ---- entry
("weight","bug",C,"let relevance = grid.grid_entry.relev * subquery.weight;","let relevance = grid.grid_entry.relev + subquery.weight;"),
("tmp24","bug",C,"((subquery.idx as u32) << 25) + grid","((subquery.idx as u32) << 24) + grid"),
("tmpor","bug",C,"((subquery.idx as u32) << 25) + grid.grid_entry.id","((subquery.idx as u32) << 25) | grid.grid_entry.id"),
("dist","bug",C,"distance: grid.distance,\n        scoredist","distance: grid.scoredist,\n        scoredist"),
("noweight","bug",C,"grid_entry: GridEntry { relev: relevance, ..grid.grid_entry },","grid_entry: GridEntry { ..grid.grid_entry },"),
# ---- single
("bm","bug",C,"let bigger_max = 2 * MAX_CONTEXTS;\n\n    let grids","let bigger_max = MAX_CONTEXTS;\n\n    let grids"),
("same_lt","bug",C,"&& coalesce_entry.scoredist <= previous_scoredist","&& coalesce_entry.scoredist < previous_scoredist"),
("fcge","bug",C,"        if feature_count > bigger_max {\n            if coalesce_entry","        if feature_count >= bigger_max {\n            if coalesce_entry"),
("mincmp","bug",C,"if coalesce_entry.scoredist < min_scoredist {\n                continue;","if coalesce_entry.scoredist <= min_scoredist {\n                continue;"),
("sgap","bug",C,"if max_relevance - coalesce_entry.grid_entry.relev >= 0.25 {","if max_relevance - coalesce_entry.grid_entry.relev > 0.25 {"),
("occand","bug",C,"&& current_relev >= already_coalesced.get().grid_entry.relev","&& current_relev > already_coalesced.get().grid_entry.relev"),
("proxsome","bug",C,"if match_opts.proximity.is_none() && feature_count > bigger_max {","if feature_count > bigger_max {"),
("prevrel","bug",C,"        previous_relevance = current_relev;\n",""),
("noprevsd","bug",C,"        previous_scoredist = current_scoredist;\n",""),
("ssortid","bug",C,"            context.entries[0].grid_entry.y,\n            context.entries[0].grid_entry.id,\n        ))\n    });\n\n    contexts.truncate(MAX_CONTEXTS);","            context.entries[0].grid_entry.y,\n        ))\n    });\n\n    contexts.truncate(MAX_CONTEXTS);"),
("notrunc","bug",C,"    contexts.truncate(MAX_CONTEXTS);\n    Ok(contexts)\n}\n\nfn coalesce_multi","    Ok(contexts)\n}\n\nfn coalesce_multi"),
("srev","bug",C,"        Reverse((\n            OrderedFloat(context.relev),\n            OrderedFloat(context.entries[0].scoredist),\n            context.entries[0].grid_entry.x,","        Reverse((\n            OrderedFloat(context.entries[0].scoredist),\n            OrderedFloat(context.relev),\n            context.entries[0].grid_entry.x,"),
# ---- multi
("msortidx","bug",C,"stack.sort_by_key(|subquery| (subquery.store.borrow().zoom, subquery.idx));","stack.sort_by_key(|subquery| (subquery.idx, subquery.store.borrow().zoom));"),
("mcompat","bug",C,"|| subquery.store.borrow().zoom < subquery_b.store.borrow().zoom","|| subquery.store.borrow().zoom <= subquery_b.store.borrow().zoom"),
("mzoom","bug",C,"if zoom_adjusted_match_options.zoom != subquery.store.borrow().zoom {","if zoom_adjusted_match_options.zoom > subquery.store.borrow().zoom {"),
("mcompound","bug",C,"zoom_adjusted_match_options = match_opts.adjust_to_zoom(subquery.store.borrow().zoom);","zoom_adjusted_match_options = zoom_adjusted_match_options.adjust_to_zoom(subquery.store.borrow().zoom);"),
("mmaxg","bug",C,"            MAX_GRIDS_PER_PHRASE,\n        )?;\n\n        for grid in grids.take(MAX_GRIDS_PER_PHRASE) {","            MAX_CONTEXTS,\n        )?;\n\n        for grid in grids.take(MAX_GRIDS_PER_PHRASE) {"),
("mxy","bug",C,"entries[0].grid_entry.y / scale_factor,\n                );","entries[0].grid_entry.x / scale_factor,\n                );"),
("mmask","bug",C,"} else if (context_mask & parent_entry.mask) == 0 {","} else if context_mask != parent_entry.mask {"),
("mprev","bug",C,"                                context_relevance -= prev_relev;\n",""),
("mprevmask","bug",C,"if parent_entry.mask == prev_mask\n                                && parent_entry.grid_entry.relev > prev_relev","if parent_entry.mask == prev_mask\n                                && parent_entry.grid_entry.relev >= prev_relev"),
("mpen1","bug",C,"                if entries.len() == 1 {\n                    // Slightly penalize contexts that have no stacking\n                    context_relevance -= 0.01;","                if entries.len() == 1 {\n                    // Slightly penalize contexts that have no stacking\n                    context_relevance -= 0.1;"),
("mpenasc","bug",C,"} else if entries[0].mask > entries[1].mask {","} else if entries[0].mask < entries[1].mask {"),
("mlast","bug",C,"if i == (stack.len() - 1) {","if i == stack.len() {"),
("mfirst","bug",C,"} else if i == 0 || entries.len() > 1 {","} else if entries.len() > 1 {"),
("mfinal","bug",C,"            if max_relevance - context.relev < 0.25 {\n                contexts.push(context);","            {\n                contexts.push(context);"),
("msort","bug",C,"            context.entries[0].idx,\n            Reverse(context.entries[0].grid_entry.x),","            Reverse(context.entries[0].idx),\n            Reverse(context.entries[0].grid_entry.x),"),
("mextend","bug",C,"                existing_vector.extend(to_add_context);","                *existing_vector = to_add_context;"),
# ---- tree
("tstatexy","bug",C,"let point = [context.entries[0].grid_entry.x, context.entries[0].grid_entry.y];","let point = [context.entries[0].grid_entry.y, context.entries[0].grid_entry.x];"),
("tprox","bug",C,"bbox[0] <= prox[0] && bbox[2] >= prox[0] &&","bbox[0] < prox[0] && bbox[2] >= prox[0] &&"),
("tadj","bug",C,"let match_opts = if match_opts.zoom == subquery.store.borrow().zoom {","let match_opts = if match_opts.zoom <= subquery.store.borrow().zoom {"),
("tkey","bug",C,"            self.contains_prox,\n            OrderedFloat(subquery.store.borrow().max_score),","            !self.contains_prox,\n            OrderedFloat(subquery.store.borrow().max_score),"),
("tpen","bug",C,"if context.entries.len() == 1 || context.entries[0].mask > context.entries[1].mask {","if context.entries.len() == 1 && context.entries[0].mask > context.entries[1].mask {"),
("tmax","bug",C,"ConstrainedPriorityQueue::new(MAX_CONTEXTS * 20);","ConstrainedPriorityQueue::new(MAX_CONTEXTS);"),
("tstop","bug",C,"if step.node.max_relev\n                        <= contexts","if step.node.max_relev\n                        >= contexts"),
("tstop2","bug",C,"if step.node.max_relev\n                        <= contexts","if step.possible_relev\n                        <= contexts"),
("tsinglecond","bug",C,"let is_single = step.prev_state.is_none() && step.node.children.len() == 0;","let is_single = step.node.children.len() == 0;"),
("tnearby","bug",C,"let match_opts = if key_group.nearby_only {","let match_opts = if !key_group.nearby_only {"),
("trange","bug",C,"end - start > 1,","end - start > 0,"),
("tmaskone","bug",C,"if is_range == true && subquery.mask.count_ones() == 1 {","if is_range == true && subquery.mask.count_ones() >= 1 {"),
("tslow75","bug",C,"<= 0.75","<= 0.95"),
("tletter","bug",C,"if key_group.phrase_length == 1 {","if key_group.phrase_length <= 2 {"),
("tquota","bug",C,"if one_word_range_count < ONE_WORD_RANGE_QUOTA {","if one_word_range_count < ONE_LETTER_RANGE_QUOTA {"),
("tquotaoff","bug",C,"if all_high_zoom_count < ALL_HIGH_ZOOM_QUOTA {","if all_high_zoom_count <= ALL_HIGH_ZOOM_QUOTA {"),
("tquotarange","bug",C,"                            if is_range {\n                                if all_high","                            if !is_range {\n                                if all_high"),
("tuniq","bug",C,"if unique_keys.insert((key_group.id, is_single)) {","if unique_keys.insert((key_group.id, false)) {"),
("tkeyid","bug",C,"                        key_step.key_id,\n                    )?;","                        0,\n                    )?;"),
("tfilter","bug",C,"                                grid.grid_entry.y,\n                                grid.grid_entry.id,\n                            ))","                                grid.grid_entry.y,\n                                0u32,\n                            ))"),
("tcache","bug",C,"data_cache.insert(key_id, data);","data_cache.entry(key_id).or_insert(data);"),
("tscale","bug",C,"let scale_factor: u16 = 1 << (subquery.store.borrow().zoom - step.prev_zoom);","let scale_factor: u16 = 1 << (step.prev_zoom.max(subquery.store.borrow().zoom) - subquery.store.borrow().zoom);"),
("tinsert","bug",C,"new_context.entries.insert(0, entry.clone());","new_context.entries.push(entry.clone());"),
("tmask","bug",C,"new_context.mask = new_context.mask | subquery.mask;","new_context.mask = subquery.mask;"),
("trelev","bug",C,"new_context.relev += entry.grid_entry.relev;","new_context.relev = entry.grid_entry.relev;"),
("tpenprop","bug",C,"                                    penalize_multi_context(&mut out_context);\n                                    step_contexts.push(out_context);\n\n                                    if","                                    penalize_multi_context(&mut new_context);\n                                    step_contexts.push(out_context);\n\n                                    if"),
("tnopen","bug",C,"                                let mut out_context = context.clone();\n                                penalize_multi_context(&mut out_context);","                                let mut out_context = context.clone();"),
("tbbox","bug",C,"adjust_bbox_zoom(*bbox, child_zoom, current_zoom)","adjust_bbox_zoom(*bbox, current_zoom, child_zoom)"),
("tnooverlap","bug",C,"                                if !overlaps {\n                                    continue;\n                                }\n","                                if !overlaps {\n                                    break;\n                                }\n"),
("trange2","bug",C,".search_range(bbox[0], bbox[1], bbox[2], bbox[3])",".search_range(bbox[0], bbox[2], bbox[1], bbox[3])"),
("tposs","bug",C,"relev_so_far\n                                        + child","0.0\n                                        + child"),
("tprevzoom","bug",C,"                                    current_zoom,\n                                    match_opts,\n","                                    child_zoom,\n                                    match_opts,\n"),
("tstepopts","bug",C,"                                    current_zoom,\n                                    match_opts,\n","                                    current_zoom,\n                                    &step.match_opts,\n"),
("tstepctx","bug",C,"ConstrainedPriorityQueue::new(MAX_CONTEXTS);\n\n                        if let Some(prev_state)","ConstrainedPriorityQueue::new(MAX_CONTEXTS / 2);\n\n                        if let Some(prev_state)"),
# ---- stackable
("snode","bug",T,"&& node.bmask.contains(phrasematch.idx as usize) == false","&& node.bmask.contains(phrasematch.idx as usize) == true"),
("sidx","bug",T,"phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false","phrasematch.non_overlapping_indexes.contains(phrasematch.idx as usize) == false"),
("smask","bug",T,"if (node.mask & phrasematch.mask) == 0","if (node.mask & phrasematch.mask) != node.mask"),
("starget","bug",T,"let target_mask = &phrasematch.mask | node.mask;","let target_mask = phrasematch.mask;"),
("stype","bug",T,"                    type_idx + 1,\n","                    type_idx,\n"),
("sstop","bug",T,"max_possible_relev < *arena.min_relev","max_possible_relev <= *arena.min_relev"),
("sposs","bug",T,"let max_possible_relev = target_relev + *phrasematch_group.max_relev_after_this;","let max_possible_relev = target_relev + *phrasematch_group.max_relev;"),
("smaxrel","bug",T,"                    if max_relev > node.max_relev {\n                        node.max_relev = max_relev;\n                    }\n",""),
("sunion","bug",T,"                target_bmask.union_with(&phrasematch.non_overlapping_indexes);\n",""),
("ssort","bug",T,"(Reverse(OrderedFloat(pm.weight)), pm.idx)","(OrderedFloat(pm.weight), pm.idx)"),
("safter","bug",T,"        bin.max_relev_after_this = OrderedFloat(sum_so_far);\n        sum_so_far = sum_so_far + *bin.max_relev;","        sum_so_far = sum_so_far + *bin.max_relev;\n        bin.max_relev_after_this = OrderedFloat(sum_so_far);"),
("srev2","bug",T,"binned_phrasematches.iter_mut().rev()","binned_phrasematches.iter_mut()"),
("aless","bug",T,"if old_total_leaves >= self.soft_max && max_relev < self.min_relev {","if old_total_leaves >= self.soft_max && max_relev <= self.min_relev {"),
("aleaf","bug",T,"            if is_leaf {\n                relev_entry.0 += 1;\n                self.total_leaves += 1;","            {\n                relev_entry.0 += 1;\n                self.total_leaves += 1;"),
("amin","bug",T,"if total_without_min >= self.soft_max {","if total_without_min > self.soft_max {"),
("acull","bug",T,"self.relev_map.keys().min()","self.relev_map.keys().max()"),
("aremove","bug",T,"                self.arena.remove(node_index);\n",""),
("atotal","bug",T,"            self.total_leaves -= min_leaf_count;\n",""),
# ---- behaviour kept
("ok_len","ok",C,"if stack.len() <= 1 {","if stack.len() == 1 {"),
("ok_if","ok",C,"            let inserted = sets.insert(context.entries[0].tmp_id.into());\n            if inserted {","            if sets.insert(u64::from(context.entries[0].tmp_id)) {"),
("ok_flip","ok",C,"if max_relevance - context.relev >= 0.25 {\n                break;","if !(max_relevance - context.relev < 0.25) {\n                break;"),
("ok_helper","ok",C,"            context.entries[0].grid_entry.id,\n        ))\n    });\n\n    contexts.truncate(MAX_CONTEXTS);\n    Ok(contexts)\n}\n","            context.entries[0].grid_entry.id,\n        ))\n    });\n    first_page(contexts)\n}\n\nfn first_page(mut cs: Vec<CoalesceContext>) -> Result<Vec<CoalesceContext>, Error> {\n    cs.truncate(MAX_CONTEXTS);\n    Ok(cs)\n}\n"),
("ok_max","ok",C,"        if coalesce_entry.grid_entry.relev > max_relevance {\n            max_relevance = coalesce_entry.grid_entry.relev;\n        }\n","        max_relevance = max_relevance.max(coalesce_entry.grid_entry.relev);\n"),
("ok_values","ok",C,"        .iter()\n        .map(|(_, entry)| CoalesceContext {\n            entries: vec![entry.clone()],\n            mask: entry.mask,\n            relev: entry.grid_entry.relev,\n        })","        .values()\n        .map(|entry| CoalesceContext {\n            mask: entry.mask,\n            relev: entry.grid_entry.relev,\n            entries: vec![entry.clone()],\n        })"),
("ok_into","ok",C,"        .iter()\n        .map(|(_, entry)| CoalesceContext {\n            entries: vec![entry.clone()],\n            mask: entry.mask,\n            relev: entry.grid_entry.relev,\n        })","        .into_iter()\n        .map(|(_, entry)| CoalesceContext {\n            mask: entry.mask,\n            relev: entry.grid_entry.relev,\n            entries: vec![entry],\n        })"),
("ok_zoomvar","ok",C,"        if zoom_adjusted_match_options.zoom != subquery.store.borrow().zoom {\n            zoom_adjusted_match_options = match_opts.adjust_to_zoom(subquery.store.borrow().zoom);\n        }\n","        let this_zoom = subquery.store.borrow().zoom;\n        if this_zoom != zoom_adjusted_match_options.zoom {\n            zoom_adjusted_match_options = match_opts.adjust_to_zoom(this_zoom);\n        }\n"),
("ok_last","ok",C,"if i == (stack.len() - 1) {","if i + 1 == stack.len() {"),
("ok_bigentry","ok",C,"                if let Some(already_coalesced) = to_add_to_coalesced.get_mut(&zxy) {\n                    already_coalesced.push(CoalesceContext {\n                        entries,\n                        mask: context_mask,\n                        relev: context_relevance,\n                    });\n                } else {\n                    to_add_to_coalesced.insert(\n                        zxy,\n                        vec![CoalesceContext {\n                            entries,\n                            mask: context_mask,\n                            relev: context_relevance,\n                        }],\n                    );\n                }","                to_add_to_coalesced.entry(zxy).or_insert_with(Vec::new).push(CoalesceContext {\n                    entries,\n                    mask: context_mask,\n                    relev: context_relevance,\n                });"),
("ok_addentry","ok",C,"            if let Some(existing_vector) = coalesced.get_mut(&to_add_zxy) {\n                existing_vector.extend(to_add_context);\n            } else {\n                coalesced.insert(to_add_zxy, to_add_context);\n            }","            coalesced.entry(to_add_zxy).or_insert_with(Vec::new).extend(to_add_context);"),
("ok_pen","ok",C,"    if context.entries.len() == 1 || context.entries[0].mask > context.entries[1].mask {\n        context.relev -= 0.01\n    }","    let single = context.entries.len() == 1;\n    if single || context.entries[1].mask < context.entries[0].mask {\n        context.relev = context.relev - 0.01;\n    }"),
("ok_inlinepen","ok",C,"                                let mut out_context = context.clone();\n                                penalize_multi_context(&mut out_context);","                                let mut out_context = context.clone();\n                                if out_context.entries.len() == 1 || out_context.entries[0].mask > out_context.entries[1].mask {\n                                    out_context.relev -= 0.01\n                                }"),
("ok_childempty","ok",C,"let is_single = step.prev_state.is_none() && step.node.children.len() == 0;","let is_single = step.node.children.is_empty() && !step.prev_state.is_some();"),
("ok_isrange","ok",C,"                        let is_range = match key_group.key.match_phrase {\n                            MatchPhrase::Exact(_) => false,\n                            MatchPhrase::Range { start, end } => end - start > 1,\n                        };","                        let is_range = if let MatchPhrase::Range { start, end } = key_group.key.match_phrase {\n                            end - start > 1\n                        } else {\n                            false\n                        };"),
("ok_seqiter","ok",C,"            step_chunk\n                .into_par_iter()","            step_chunk\n                .into_iter()"),
("ok_whilelet","ok",C,"    while steps.len() > 0 && !complete {","    while !complete && !steps.is_empty() {"),
("ok_chunkloop","ok",C,"        for result in chunk_results {\n            let (phrasematch_contexts, next_steps) = result?;\n            for context in phrasematch_contexts {\n                contexts.push(context);\n            }\n\n            for step in next_steps {\n                steps.push(step);\n            }\n        }","        for result in chunk_results {\n            let (more, following) = result?;\n            more.into_iter().for_each(|c| {\n                contexts.push(c);\n            });\n            following.into_iter().for_each(|s| steps.push(s));\n        }"),
("ok_swap","ok",C,"    let mut one_letter_range_count: usize = 0;\n    let mut one_word_range_count: usize = 0;","    let mut one_word_range_count: usize = 0;\n    let mut one_letter_range_count: usize = 0;"),
("ok_cmpkey","ok",C,"        self.cmp_key().cmp(&other.cmp_key())","        let (mine, theirs) = (self.cmp_key(), other.cmp_key());\n        mine.cmp(&theirs)"),
("ok_ctxhelper","ok",C,"                                let context = CoalesceContext {\n                                    mask: subquery.mask,\n                                    relev: entry.grid_entry.relev,\n                                    entries: vec![entry],\n                                };","                                let context = lone(subquery.mask, entry);","") if False else
("ok_newctx","ok",C,"                                    new_context.mask = new_context.mask | subquery.mask;\n                                    new_context.relev += entry.grid_entry.relev;","                                    new_context.relev += entry.grid_entry.relev;\n                                    new_context.mask |= subquery.mask;"),
("ok_overlap","ok",C,"                                if !overlaps {\n                                    continue;\n                                }\n\n                                next_steps.push(CoalesceStep::new(\n                                    &child,\n                                    Some(state.clone()),\n                                    current_zoom,\n                                    match_opts,\n                                    relev_so_far\n                                        + child.phrasematch.expect(\"phrasematch required\").weight,\n                                ));","                                if overlaps {\n                                    let best = relev_so_far\n                                        + child.phrasematch.expect(\"phrasematch required\").weight;\n                                    next_steps.push(CoalesceStep::new(\n                                        &child,\n                                        Some(state.clone()),\n                                        current_zoom,\n                                        match_opts,\n                                        best,\n                                    ));\n                                }"),
("ok_stack","ok",T,"            if (node.mask & phrasematch.mask) == 0\n                && phrasematch.non_overlapping_indexes.contains(node.idx as usize) == false\n                && node.bmask.contains(phrasematch.idx as usize) == false\n            {","            let clash = node.mask & phrasematch.mask != 0\n                || phrasematch.non_overlapping_indexes.contains(node.idx as usize)\n                || node.bmask.contains(phrasematch.idx as usize);\n            if !clash {"),
("ok_push","ok",T,"                    if max_relev > node.max_relev {\n                        node.max_relev = max_relev;\n                    }\n","                    node.max_relev = node.max_relev.max(max_relev);\n"),
("ok_sum","ok",T,"        sum_so_far = sum_so_far + *bin.max_relev;","        sum_so_far += bin.max_relev.into_inner();"),
("ok_total","ok",T,"                    let min_count =\n                        self.relev_map.get(&self.min_relev).expect(\"must contain min_relev\").0;\n                    let total_without_min = self.total_leaves - min_count;\n                    if total_without_min >= self.soft_max {","                    let (min_count, _) =\n                        self.relev_map.get(&self.min_relev).expect(\"must contain min_relev\");\n                    if self.total_leaves - *min_count >= self.soft_max {"),
("ok_isleaf","ok",T,"let is_leaf = node.children.len() == 0;","let is_leaf = node.is_leaf();"),
("ok_isfull","ok",T,"        if old_total_leaves >= self.soft_max && max_relev < self.min_relev {","        if self.is_full() && max_relev < self.min_relev {"),
("ok_copied","ok",T,"self.relev_map.keys().min().map(|min| *min).unwrap_or","self.relev_map.keys().min().copied().unwrap_or"),
]
