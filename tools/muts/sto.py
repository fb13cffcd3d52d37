S="rust-src/src/gridstore/store.rs"
FILTER=["store::"]
MUTS=[
("zoomdef","bug",S,"GridStore::new_with_options(path, 6, 0, 0.0,","GridStore::new_with_options(path, 16, 0, 0.0,"),
("slow15","bug",S,"return self.zoom >= 14;","return self.zoom >= 15;"),
("slow13","ok",S,"return self.zoom >= 14;","self.zoom > 13"),
("chunk8","bug",S,"chunks(4)","chunks(8)"),
("andor","bug",S,"self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end)","self.bin_boundaries.contains(&start) || self.bin_boundaries.contains(&end)"),
("startonly","bug",S,"self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end)","self.bin_boundaries.contains(&start)"),
("geworst","bug",S,"if worst_entry >= &queue_element {","if worst_entry <= &queue_element {"),
("lenle","bug",S,"if pri_queue.len() >= max_values {","if pri_queue.len() > max_values {"),
("noreplace","bug",S,"pri_queue.replace_min(queue_element);","pri_queue.push(queue_element);"),
("noswap","bug",S,"std::mem::swap(&mut next_entry, &mut (best_entry.next_entry));","let next_entry = next_entry;"),
("sortid","bug",S,"            self.next_entry.grid_entry.x,\n            self.next_entry.grid_entry.y,\n            self.next_entry.grid_entry.id,","            self.next_entry.grid_entry.y,\n            self.next_entry.grid_entry.x,\n            self.next_entry.grid_entry.id,"),
("sortsd","bug",S,"            OrderedFloat(self.next_entry.grid_entry.relev),\n            OrderedFloat(self.next_entry.scoredist),","            OrderedFloat(self.next_entry.scoredist),\n            OrderedFloat(self.next_entry.grid_entry.relev),"),
("langown","bug",S,"decode_matching_value(value, &match_opts, matches_language, self.coalesce_radius)","decode_matching_value(value, &match_opts, true, self.coalesce_radius)"),
("keys1","ok",S,"db_iter.take_while(|(key, _)| key[0] == 0).map(|(key, _)| {","db_iter.filter(|(key, _)| key[0] != 1).map(|(key, _)| {"),
("langempty","bug",S,"                std::u128::MAX\n            } else {\n                let mut key_lang_full = [0u8; 16];\n                key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);\n\n                (&key_lang_full[..]).read_u128::<BigEndian>()?\n            };\n\n            Ok(GridKey { phrase_id, lang_set })","                0\n            } else {\n                let mut key_lang_full = [0u8; 16];\n                key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);\n\n                (&key_lang_full[..]).read_u128::<BigEndian>()?\n            };\n\n            Ok(GridKey { phrase_id, lang_set })"),
("langpadleft","bug",S,"key_lang_full[(16 - key_lang_partial.len())..].copy_from_slice(key_lang_partial);","key_lang_full[..key_lang_partial.len()].copy_from_slice(key_lang_partial);"),
("penalty","bug",S,"0.96","0.95"),
("orand","bug",S,"matches_language || within_radius","matches_language && within_radius"),
("mergeasc","bug",S,"== Ordering::Greater","== Ordering::Less"),
("getprefix","bug",S,"key.write_to(TypeMarker::SinglePhrase, &mut db_key)","key.write_to(TypeMarker::PrefixBin, &mut db_key)"),
("hash127","bug",S,"let source_phrase_hash = (id_comp & 255) as u8;","let source_phrase_hash = (id_comp & 127) as u8;"),
("nooptsclone","ok",S,"        let match_opts = match_opts.clone();\n\n        let range_key","        let range_key"),
("pushpop","ok",S,"""                    let worst_entry = pri_queue.peek_min().unwrap();
                    if worst_entry >= &queue_element {
                        continue;
                    } else {
                        pri_queue.replace_min(queue_element);
                    }""","""                    pri_queue.push_pop_min(queue_element);"""),
("ltbranch","ok",S,"""                    if worst_entry >= &queue_element {
                        continue;
                    } else {
                        pri_queue.replace_min(queue_element);
                    }""","""                    if worst_entry < &queue_element {
                        pri_queue.replace_min(queue_element);
                    }"""),
("rename","ok",S,"fn decode_matching_value<","fn decode_matches<",(S,"decode_matching_value(value,","decode_matches(value,")),
("renameq","ok",S,"struct QueueElement<T: Iterator<Item = MatchEntry>> {","struct Head<T: Iterator<Item = MatchEntry>> {",(S,"> QueueElement<T> {","> Head<T> {"),(S,"Ord for QueueElement<T>","Ord for Head<T>"),(S,"PartialOrd for QueueElement<T>","PartialOrd for Head<T>"),(S,"PartialEq for QueueElement<T>","PartialEq for Head<T>"),(S," Eq for QueueElement<T>"," Eq for Head<T>"),(S,"QueueElement::<","Head::<"),(S,"MinMaxHeap::<QueueElement<_>>","MinMaxHeap::<Head<_>>"),(S,"let queue_element = QueueElement {","let queue_element = Head {")),
("fieldname","ok",S,"    next_entry: MatchEntry,\n    entry_iter: T,","    entry_iter: T,\n    next_entry: MatchEntry,"),
("helper","ok",S,"""        let fetch_type_marker = match match_key.match_phrase {
            MatchPhrase::Exact(_) => TypeMarker::SinglePhrase,
            MatchPhrase::Range { start, end } => {
                if self.bin_boundaries.contains(&start) && self.bin_boundaries.contains(&end) {
                    TypeMarker::PrefixBin
                } else {
                    TypeMarker::SinglePhrase
                }
            }
        };
""","""        let fetch_type_marker = self.marker_for(match_key);
""",(S,"    pub fn might_be_slow(&self) -> bool {","""    fn marker_for(&self, k: &MatchKey) -> TypeMarker {
        if let MatchPhrase::Range { start, end } = k.match_phrase {
            let aligned = self.bin_boundaries.contains(&end) && self.bin_boundaries.contains(&start);
            if aligned { return TypeMarker::PrefixBin; }
        }
        TypeMarker::SinglePhrase
    }

    pub fn might_be_slow(&self) -> bool {""")),
("idloop","ok",S,"""            let id = id_comp >> 8;
                            let source_phrase_hash = (id_comp & 255) as u8;""","""            let source_phrase_hash = id_comp as u8;
                            let id = id_comp / 256;"""),
("forloop","ok",S,"            let entries: Vec<_> = decode_value(value).collect();\n","            let mut entries = Vec::new();\n            for e in decode_value(value) { entries.push(e); }\n"),
]
MUTS += [("nommap","ok",S,"        opts.set_allow_mmap_reads(true);\n",""),]
