C="rust-src/src/gridstore/coalesce.rs"; K="rust-src/src/gridstore/common.rs"; S="rust-src/src/gridstore/spatial.rs"; F="rust-src/src/gridstore/gridstore_format.rs"; ST="rust-src/src/gridstore/store.rs"
MUTS=[]
def ok(n,f,*e):
    MUTS.append((n,"ok",f)+tuple(e[0])+tuple((f,)+tuple(x) for x in e[1:]))
ok("q_first",C,("        let max_relevance = contexts[0].relev;","        let max_relevance = contexts.first().unwrap().relev;"))
ok("q_onlyone",C,("    let contexts = if stack.len() <= 1 {\n        coalesce_single(&stack[0], match_opts)?","    let contexts = if stack.len() < 2 {\n        coalesce_single(stack.first().expect(\"not empty\"), match_opts)?"))
ok("q_getfirst",C,("""    if stack.is_empty() {
        return Ok(Vec::new());
    }
    let contexts = if stack.len() <= 1 {
        coalesce_single(&stack[0], match_opts)?""","""    let first = match stack.get(0) {
        Some(first) => first,
        None => return Ok(Vec::new()),
    };
    let contexts = if stack.len() <= 1 {
        coalesce_single(first, match_opts)?"""))
ok("q_penget",C,("    if context.entries.len() == 1 || context.entries[0].mask > context.entries[1].mask {","    if context.entries.get(1).map_or(true, |second| context.entries[0].mask > second.mask) {"))
ok("q_pen3",C,("    if context.entries.len() == 1 || context.entries[0].mask > context.entries[1].mask {","    if context.entries.len() < 2 || context.entries[0].mask > context.entries[1].mask {"))
ok("q_prox",C,("        let contains_prox = if let Some(prox) = match_opts.proximity {\n","        let contains_prox = if match_opts.proximity.is_some() {\n            let prox = match_opts.proximity.unwrap();\n"))
ok("q_prox2",C,("        let contains_prox = if let Some(prox) = match_opts.proximity {\n","        let contains_prox = if match_opts.proximity != None {\n            let prox = match_opts.proximity.expect(\"proximity\");\n"))
ok("q_arena",C,("""        if let Some(node) = stack_tree.arena.get(*child_idx) {
            // push the first set of nodes into the queue
""","""        let node = stack_tree.arena.get(*child_idx);
        if node.is_some() {
            let node = node.unwrap();
"""))
ok("q_expect",C,("                .as_ref()\n                .expect(\"phrasematch must be set on non-root tree nodes\")\n                .weight;","                .unwrap()\n                .weight;"))
ok("q_popmax",C,("            if let Some(step) = steps.pop_max() {","            if steps.len() > 0 {\n                let step = steps.pop_max().unwrap();"))
ok("q_full",C,("                if contexts.len() >= contexts.max_size {\n                    if step.node.max_relev\n                        <= contexts.peek_min().expect(\"contexts can't be empty\").relev\n                    {\n                        complete = true;\n                        break;\n                    }\n                }","                if contexts.len() >= contexts.max_size\n                    && step.node.max_relev <= contexts.peek_min().unwrap().relev\n                {\n                    complete = true;\n                    break;\n                }"))
ok("q_ent",C,("                if entries.len() == 1 {\n                    // Slightly penalize contexts that have no stacking\n                    context_relevance -= 0.01;\n                } else if entries[0].mask > entries[1].mask {\n                    // Slightly penalize contexts in ascending order\n                    context_relevance -= 0.01\n                }","                // Slightly penalize contexts that have no stacking, or in ascending order\n                if entries.len() == 1 || entries[0].mask > entries[1].mask {\n                    context_relevance -= 0.01;\n                }"))
ok("q_ent2",C,("                } else if entries[0].mask > entries[1].mask {","                } else if entries[1].mask < entries[0].mask {"))
ok("q_rmif",C,("        let entry = coalesced.remove(&id).expect(\"hashmap must contain key\");","        let entry = match coalesced.remove(&id) {\n            Some(entry) => entry,\n            None => unreachable!(),\n        };"))
ok("q_lang",K,("        let key_lang_partial = &db_key[5..];\n        if key_lang_partial.len() == 0 {","        let (_, key_lang_partial) = db_key.split_at(5);\n        if key_lang_partial.is_empty() {"))
ok("q_lang2",K,("        if key_lang_partial.len() == 0 {","        if db_key.len() <= 5 {"))
ok("q_mkey",K,("        let key_phrase = (&db_key[1..]).read_u32::<BigEndian>()?;\n        if db_key[0] != (type_marker as u8) {\n            return Ok(false);\n        }","        let marker = db_key[0];\n        let key_phrase = (&db_key[1..]).read_u32::<BigEndian>()?;\n        if marker != (type_marker as u8) {\n            return Ok(false);\n        }"))
ok("q_mkey2",K,("        let key_phrase = (&db_key[1..]).read_u32::<BigEndian>()?;\n        if db_key[0] != (type_marker as u8) {\n            return Ok(false);\n        }","        let (marker, mut rest) = db_key.split_first().unwrap();\n        let key_phrase = rest.read_u32::<BigEndian>()?;\n        if *marker != (type_marker as u8) {\n            return Ok(false);\n        }"))
ok("q_mkey3",K,("        let key_phrase = (&db_key[1..]).read_u32::<BigEndian>()?;\n        if db_key[0] != (type_marker as u8) {\n            return Ok(false);\n        }","        if db_key[0] != (type_marker as u8) {\n            return Ok(false);\n        }\n        let key_phrase = (&db_key[1..]).read_u32::<BigEndian>()?;"))
ok("q_adj",K,("                    if target_z < self.zoom {\n                        // If","                    if self.zoom > target_z {\n                        // If"))
ok("q_adj2",K,("                        let zoom_levels = self.zoom - target_z;","                        let zoom_levels = self.zoom.saturating_sub(target_z);"))
ok("q_adj3",K,("            let adjusted_proximity = match &self.proximity {","            let zoom_levels_out = self.zoom.wrapping_sub(target_z);\n            let adjusted_proximity = match &self.proximity {"),("                        let zoom_levels = self.zoom - target_z;","                        let zoom_levels = zoom_levels_out;"))
ok("q_peek",ST,("                    let worst_entry = pri_queue.peek_min().unwrap();\n                    if worst_entry >= &queue_element {","                    if pri_queue.peek_min().map_or(false, |worst| worst >= &queue_element) {"))
ok("q_len",S,("    let len = coords.len();\n    if len == 0 {\n        return None;\n    }\n\n    let range_start","    if coords.len() == 0 {\n        return None;\n    }\n    let len = coords.len();\n    let last = len - 1;\n\n    let range_start"),("    let range_end = coords.get(len - 1).coord;","    let range_end = coords.get(last).coord;"))
ok("q_assert",S,("    debug_assert!(start <= end, \"Start is before end\");","    debug_assert!(start < len as u32);"))
