B="rust-src/src/gridstore/builder.rs"
FILTER=["builder::","groupby"]
MUTS=[
# --- bugs
("relevnib","bug",B,"(relev_float_to_int(value.relev) << 4) | (value.score & 15)","(relev_float_to_int(value.relev) << 3) | (value.score & 15)"),
("score7","bug",B,"(relev_float_to_int(value.relev) << 4) | (value.score & 15)","(relev_float_to_int(value.relev) << 4) | (value.score & 7)"),
("unmask","bug",B,"(relev_float_to_int(value.relev) << 4) | (value.score & 15)","(relev_float_to_int(value.relev) << 4) | value.score"),
("xy","bug",B,"interleave_morton(value.x, value.y)","interleave_morton(value.y, value.x)"),
("idhash","bug",B,"(value.id << 8) | (value.source_phrase_hash as u32)","(value.id << 8) | ((value.source_phrase_hash & 0x7f) as u32)"),
("lostocc","bug",B,"""                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }""","""                HmEntry::Occupied(mut e) => {
                    *e.get_mut() = id_phrases.collect();
                }"""),
("insappend","bug",B,"""        let mut to_insert = BuilderEntry::new();
        extend_entries(&mut to_insert, values);""","""        let mut to_insert = self.data.remove(key).unwrap_or_else(BuilderEntry::new);
        extend_entries(&mut to_insert, values);"""),
("insonlynew","bug",B,"        self.data.insert(key.to_owned(), to_insert);","        self.data.entry(key.to_owned()).or_insert(to_insert);"),
("appnew","bug",B,"""        let mut to_append = self.data.entry(key.to_owned()).or_insert_with(|| BuilderEntry::new());
        extend_entries(&mut to_append, values);""","""        let mut to_append = BuilderEntry::new();
        extend_entries(&mut to_append, values);
        self.data.insert(key.to_owned(), to_append);"""),
("compocc","bug",B,"                    e.get_mut().extend_from_slice(&id_hash);","                    e.insert(id_hash.clone());"),
("compskip","bug",B,"        for pair in coords {\n            let zcoord","        for pair in coords.iter().skip(1) {\n            let zcoord"),
("compswap","bug",B,"interleave_morton(pair.0, pair.1)","interleave_morton(pair.1, pair.0)"),
("renlang","bug",B,"GridKey { phrase_id: *new_phrase_id, ..key }","GridKey { phrase_id: *new_phrase_id, lang_set: 0 }"),
("renoverwrite","bug",B,"""                Entry::Occupied(_) => {
                    return Err(Error::from(BuildError::DuplicateRenumberEntry {
                        target_id: *new_phrase_id,
                    }))
                }""","""                Entry::Occupied(mut o) => {
                    o.insert(value);
                }"""),
("rendupid","bug",B,"target_id: *new_phrase_id,","target_id: key.phrase_id,"),
("renoff","bug",B,".get(key.phrase_id as usize)",".get((key.phrase_id as u16) as usize)"),
("reninv","bug",B,"let new_phrase_id = tmp_phrase_ids_to_ids\n                .get(key.phrase_id as usize)\n                .ok_or_else(|| BuildError::OutOfBoundsRenumberEntry { tmp_id: key.phrase_id })?;","let new_phrase_id = tmp_phrase_ids_to_ids.get(key.phrase_id as usize).unwrap_or(&key.phrase_id);"),
("rsasc","bug",B,"        relevance_score_b.cmp(&relevance_score_a)","        relevance_score_a.cmp(&relevance_score_b)"),
("coordasc","bug",B,"inner_items.sort_by(|(coord_a, _), (coord_b, _)| coord_b.cmp(&coord_a));","inner_items.sort_by(|(coord_a, _), (coord_b, _)| coord_a.cmp(&coord_b));"),
("idsasc","bug",B,"ids.sort_by(|id_a, id_b| id_b.cmp(id_a));","ids.sort();"),
("nodedup","bug",B,"            ids.dedup();\n",""),
("dedupfirst","bug",B,"            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));\n            ids.dedup();","            ids.dedup();\n            ids.sort_by(|id_a, id_b| id_b.cmp(id_a));"),
("rssort4","bug",B,"        relevance_score_b.cmp(&relevance_score_a)","        (relevance_score_b >> 4).cmp(&(relevance_score_a >> 4))"),
("cachelen","bug",B,"id_lists.entry(ids.clone()).or_insert_with","id_lists.entry(ids.len()).or_insert_with"),
("cachefirst","bug",B,"id_lists.entry(ids.clone()).or_insert_with","id_lists.entry(ids[0]).or_insert_with"),
("copylast","bug",B,"            zcoord_entry.extend(values.iter().cloned());","            *zcoord_entry = values.clone();"),
("copyone","bug",B,"            zcoord_entry.extend(values.iter().cloned());","            zcoord_entry.extend(values.iter().take(4).cloned());"),
("bingt","bug",B,"key.phrase_id >= *boundary","key.phrase_id > *boundary"),
("bininf","bug",B,"while bin_seq.peek()","if bin_seq.peek()"),
("binmarker","bug",B,"group_key.write_to(TypeMarker::PrefixBin, &mut db_key)?;","group_key.write_to(TypeMarker::SinglePhrase, &mut db_key)?;"),
("binlang","bug",B,"GridKey { phrase_id: group_id, lang_set };","GridKey { phrase_id: group_id, lang_set: std::u128::MAX };"),
("langone","bug",B,"lang_set_map.entry(grid_key.lang_set)","lang_set_map.entry(grid_key.lang_set as u64 as u128)"),
("noclear","bug",B,"                    db_key.clear();\n                    let group_key","                    let group_key"),
("be","bug",B,"boundary.to_le_bytes()","boundary.to_be_bytes()"),
("boundskey","bug",B,'db.put("~BOUNDS"','db.put("~bounds"'),
("boundsif","bug",B,'        db.put("~BOUNDS", &encoded_boundaries)?;','        if encoded_boundaries.len() > 4 {\n            db.put("~BOUNDS", &encoded_boundaries)?;\n        }'),
("puterr","bug",B,"                db.put(&db_key, &db_data)?;","                let _ = db.put(&db_key, &db_data);"),
("puterr2","bug",B,'        db.put("~BOUNDS", &encoded_boundaries)?;','        db.put("~BOUNDS", &encoded_boundaries).ok();'),
("loadmore","bug",B,"        self.bin_boundaries = bin_boundaries;","        self.bin_boundaries.extend(bin_boundaries);"),
("noprefixifone","bug",B,"            if let Some(group_id) = group_id {","            if lang_set_map.len() < 2 { continue; }\n            if let Some(group_id) = group_id {"),
# --- behaviour preserving
("ok_match","ok",B,"""                HmEntry::Vacant(e) => {
                    e.insert(id_phrases.collect());
                }
                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }""","""                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }
                HmEntry::Vacant(e) => {
                    let fresh: SmallVec<[u32; 4]> = id_phrases.collect();
                    e.insert(fresh);
                }"""),
("ok_entry","ok",B,"""            match rs_entry.entry(zcoord) {
                HmEntry::Vacant(e) => {
                    e.insert(id_phrases.collect());
                }
                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }
            }""","""            rs_entry.entry(zcoord).or_insert_with(SmallVec::new).extend(id_phrases);"""),
("ok_perentry","ok",B,"""    for (rs, rs_values) in somewhat_eager_groupby(values.into_iter(), |value| {
        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
    }) {
        let rs_entry =
            builder_entry.entry(rs).or_insert_with(|| HashMap::with_capacity(rs_values.len()));
        for (zcoord, zc_values) in
            &rs_values.into_iter().group_by(|value| interleave_morton(value.x, value.y))
        {
            let id_phrases =
                zc_values.map(|value| (value.id << 8) | (value.source_phrase_hash as u32));
            match rs_entry.entry(zcoord) {
                HmEntry::Vacant(e) => {
                    e.insert(id_phrases.collect());
                }
                HmEntry::Occupied(mut e) => {
                    e.get_mut().extend(id_phrases);
                }
            }
        }
    }""","""    for value in values {
        let rs = (relev_float_to_int(value.relev) << 4) | (value.score & 15);
        builder_entry
            .entry(rs)
            .or_insert_with(HashMap::new)
            .entry(interleave_morton(value.x, value.y))
            .or_insert_with(SmallVec::new)
            .push((value.id << 8) | (value.source_phrase_hash as u32));
    }"""),
("ok_helper","ok",B,"""        (relev_float_to_int(value.relev) << 4) | (value.score & 15)
    }) {""","""        pack_rs(value.relev, value.score)
    }) {""",(B,"/// Extends a BuildEntry with","fn pack_rs(relev: f64, score: u8) -> u8 {\n    let hi = relev_float_to_int(relev) << 4;\n    hi + (score & 0x0f)\n}\n\n/// Extends a BuildEntry with")),
("ok_sortrev","ok",B,"ids.sort_by(|id_a, id_b| id_b.cmp(id_a));","ids.sort_unstable_by(|a, b| b.cmp(a));"),
("ok_sortkey","ok",B,"inner_items.sort_by(|(coord_a, _), (coord_b, _)| coord_b.cmp(&coord_a));","inner_items.sort_by_key(|(coord, _)| std::cmp::Reverse(*coord));"),
("ok_sort_then_rev","ok",B,"ids.sort_by(|id_a, id_b| id_b.cmp(id_a));\n            ids.dedup();","ids.sort();\n            ids.dedup();\n            ids.reverse();"),
("ok_get","ok",B,"""            let new_phrase_id = tmp_phrase_ids_to_ids
                .get(key.phrase_id as usize)
                .ok_or_else(|| BuildError::OutOfBoundsRenumberEntry { tmp_id: key.phrase_id })?;""","""            let tmp_id = key.phrase_id;
            let new_phrase_id = match tmp_phrase_ids_to_ids.get(tmp_id as usize) {
                Some(id) => id,
                None => return Err(Error::from(BuildError::OutOfBoundsRenumberEntry { tmp_id })),
            };"""),
("ok_take","ok",B,"""        let mut old_data: BTreeMap<GridKey, BuilderEntry> = BTreeMap::new();
        std::mem::swap(&mut old_data, &mut self.data);""","""        let old_data = std::mem::take(&mut self.data);"""),
("ok_contains","ok",B,"""            match self.data.entry(new_key) {
                Entry::Vacant(v) => {
                    v.insert(value);
                }
                Entry::Occupied(_) => {
                    return Err(Error::from(BuildError::DuplicateRenumberEntry {
                        target_id: *new_phrase_id,
                    }))
                }
            };""","""            if self.data.contains_key(&new_key) {
                return Err(BuildError::DuplicateRenumberEntry { target_id: *new_phrase_id }.into());
            }
            self.data.insert(new_key, value);""",(B,"use std::collections::{btree_map::Entry, BTreeMap, HashMap};","use std::collections::{BTreeMap, HashMap};")),
("ok_flat","ok",B,"""        for boundary in self.bin_boundaries {
            encoded_boundaries.extend_from_slice(&boundary.to_le_bytes());
        }""","""        for boundary in self.bin_boundaries.iter() {
            encoded_boundaries.extend(boundary.to_le_bytes().iter().cloned());
        }"""),
("ok_newkey","ok",B,"""                // figure out the key
                db_key.clear();
                grid_key.write_to(TypeMarker::SinglePhrase, &mut db_key)?;
""","""                // figure out the key
                let mut db_key: Vec<u8> = Vec::with_capacity(MAX_KEY_LENGTH);
                grid_key.write_to(TypeMarker::SinglePhrase, &mut db_key)?;
"""),
("ok_order","ok",B,"""                let mut grouped_entry =
                    lang_set_map.entry(grid_key.lang_set).or_insert_with(|| BuilderEntry::new());
                copy_entries(&value, &mut grouped_entry);
                // figure out the value
                let db_data = get_encoded_value(value)?;
                db.put(&db_key, &db_data)?;""","""                let grouped_entry =
                    lang_set_map.entry(grid_key.lang_set).or_insert_with(BuilderEntry::new);
                copy_entries(&value, grouped_entry);
                db.put(&db_key, &get_encoded_value(value)?)?;"""),
("ok_binhelper","ok",B,"""            while bin_seq.peek().map_or(false, |boundary| key.phrase_id >= *boundary) {
                current_bin = bin_seq.next();
            }
""","""            while let Some(boundary) = bin_seq.peek() {
                if key.phrase_id < *boundary {
                    break;
                }
                current_bin = bin_seq.next();
            }
"""),
("ok_capacity","ok",B,"Vec::with_capacity(self.bin_boundaries.len() * 4)","Vec::new()"),
("ok_onlysome","ok",B,"""                let mut grouped_entry =
                    lang_set_map.entry(grid_key.lang_set).or_insert_with(|| BuilderEntry::new());
                copy_entries(&value, &mut grouped_entry);
""","""                if group_id.is_some() {
                    let mut grouped_entry =
                        lang_set_map.entry(grid_key.lang_set).or_insert_with(|| BuilderEntry::new());
                    copy_entries(&value, &mut grouped_entry);
                }
"""),
("ok_writelist","ok",B,"""            let encoded_ids =
                id_lists.entry(ids.clone()).or_insert_with(|| builder.write_fixed_vec(&ids));

            let encoded_coord = gridstore_format::Coord { coord, ids: encoded_ids.clone() };
            coords.push(encoded_coord);""","""            let ids = id_lists
                .entry(ids.clone())
                .or_insert_with(|| builder.write_fixed_vec(&ids))
                .clone();
            coords.push(gridstore_format::Coord { coord, ids });"""),
("ok_collect","ok",B,"let mut items: Vec<(_, _)> = value.into_iter().collect();","let mut items = Vec::with_capacity(value.len());\n    items.extend(value);"),
]
