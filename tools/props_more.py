prop("C12", "The record of a key states each stored feature once, best scores first",
     "The record of a key lists its relevance-and-score groups from highest to lowest, each with its positions from highest to lowest code, each with its feature ids from highest to lowest without repetition; "
     "identical id lists may be stored once and referred to again. Nothing inserted is left out, nothing else appears, and the record's head is the last thing written.",
     ["inputs"], "all sets of entries of a key",
     "no stable test builds a store; unit tests that need the database do not run here and use a handful of entries", [B],
     [("get_encoded_value", B)], observe=["bytes of the record"])
prop("C13", "Inserting replaces a key, appending adds to it, compact append shares a score",
     "Inserting entries under a key replaces what the builder held for it; appending adds entries to it; compact appending adds one feature at several positions with one relevance and score. "
     "An entry is filed under its relevance code and the low four bits of its score, its position code, and its feature id together with its source hash. A new builder holds nothing.",
     ["inputs", "histories"], "all builders, keys and entry lists",
     "unit tests insert two or three keys with small scores", [B, C], [("GridStoreBuilder::insert/append/compact_append", B), ("somewhat_eager_groupby", C)], observe=["content of the builder afterwards"])
prop("C14", "Renumbering moves every key to its new phrase id or fails without losing data",
     "Renumbering replaces the phrase id of every held key by the id the mapping gives, keeping its languages and entries; a phrase id outside the mapping or two keys sent to the same place make it fail.",
     ["inputs"], "all builders and mappings", "no test renumbers to a colliding or missing id", [B], [("GridStoreBuilder::renumber", B)], observe=["result and content of the builder"])
prop("C15", "Finishing writes every key once, the prefix bins and the bin boundaries",
     "Finishing writes one record per held key under its encoded key; when bin boundaries were loaded it also writes, per bin and language set, the union of its phrases' entries under the bin's first phrase id, for every phrase wherever it lies, and the boundaries themselves as little-endian words. "
     "Loading bin boundaries replaces the boundaries held.",
     ["inputs"], "all builders and boundary lists", "no stable test writes a database; phrases before the first boundary were lost until this check found it", [B],
     [("GridStoreBuilder::finish, load_bin_boundaries", B)], observe=["keys and values put into the database"])
ST = "rust-src/src/gridstore/store.rs"
prop("C16", "Getting a key returns every entry stored under it, in order, and nothing else",
     "Getting a key returns nothing when the store has no record for exactly that phrase id and language set, and otherwise every entry of the record in stored order, each with its relevance, score, position, feature id and source hash.",
     ["inputs"], "all stores, keys and records", "no stable test opens a store; the unit tests read back a dozen entries", [ST],
     [("GridStore::get, decode_value", ST)], observe=["entries returned"])
prop("C17", "Listing a store yields each phrase key once with its languages and no prefix bin",
     "Listing keys or records scans the store from its start and yields exactly the phrase records, in key order, with the phrase id and language set they were stored under (the empty language field meaning all languages); prefix bins and bin boundaries are not listed. A key too short to decode is reported as an error.",
     ["inputs"], "all stores", "no stable test opens a store", [ST], [("GridStore::keys, iter", ST)], observe=["keys and entries listed"])
prop("C18", "A matching query covers exactly its keys and applies only its own filters",
     "A matching query reads the records whose phrase id lies in the requested range, from prefix bins only if both ends of the range are bin boundaries and from phrase records otherwise. Of each record it yields exactly the entries whose position passes the requested box, ordered towards the proximity point when one is given, with distance, score-distance and the language flag of the key; "
     "an entry whose key does not share a language and which is not within the proximity radius counts 0.96 of its relevance, all others count in full.",
     ["inputs"], "all stores, match keys, options", "no stable test runs a query; a phrase id of u32::MAX lost all its matches until this check found it", [ST, "rust-src/src/gridstore/spatial.rs"],
     [("GridStore::streaming_get_matching, decode_matching_value", ST)], observe=["matches yielded"])
prop("C19", "Matches stream best first across records, from the records with the best heads",
     "Matches of different records are merged by relevance, then score-distance, then language match, then position and feature id, all descending. When more records match than allowed, those whose best match ranks highest take part; none of the kept records loses a match and no match is yielded twice.",
     ["inputs", "histories"], "all stores, match keys, options and limits of at least one", "no stable test runs a query", [ST], [("GridStore::streaming_get_matching, QueueElement", ST)], observe=["sequence of matches"])
prop("C21", "A store opens with the options given and the bin boundaries it was built with",
     "Opening a store keeps zoom, type, radius, boxes and top score as given, or 6, 0, 0, the whole zoom-6 grid and 0 when not given, and restores the set of bin boundaries written by the builder; a store is possibly slow exactly from zoom 14.",
     ["inputs"], "all stores and options", "no stable test opens a store", [ST], [("GridStore::new, new_with_options, might_be_slow", ST)], observe=["fields of the opened store"])
SK = "rust-src/src/gridstore/stackable.rs"
CO = "rust-src/src/gridstore/coalesce.rs"
prop("C22", "The stack tree holds the combinations of compatible subqueries, in type order",
     "Subqueries are grouped by the type of their store, types ascending, within a type by weight (highest first) and then by index. Below a partial stack the tree has every subquery of a later type that is compatible with all of the stack: "
     "the mask shares no bit with the stack's, the subquery does not exclude the index of the one directly above it, and no subquery of the stack excludes its index. "
     "A node carries the union of masks and of excluded indexes, its subquery's index and store zoom, and the greatest summed weight reachable through it; below the top 2000 leaves only branches that cannot reach the lowest kept relevance are left out.",
     ["inputs"], "all lists of subqueries", "unit tests build trees of three or four subqueries with fixed masks; excluded indexes further up the stack were ignored until this check found it", [SK],
     [("stackable, binned_stackable, StackableNode", SK)], observe=["nodes, children and fields of the tree"])
prop("C23", "A full stack tree drops its worst nodes only and keeps its counts right",
     "A node is refused only when the tree already holds its 2000 leaves and the node's best relevance is below the lowest held. Otherwise it is kept, counted as a leaf exactly if it has no children, and filed under its best relevance; "
     "when a better node enters a full tree and the tree stays full without the lowest relevance, all nodes of that relevance are removed, their leaves are no longer counted and the next lowest relevance becomes the lowest.",
     ["histories"], "all sequences of additions", "unit tests never fill the tree: it takes 2000 leaves", [SK], [("ArenaManager::add, cull_min, is_full, get", SK)], observe=["nodes held after each addition", "leaf count", "lowest relevance"])
prop("C24", "One subquery gives each feature its best entry, weighted by the subquery",
     "A match becomes an entry with the match's grid fields, its relevance times the subquery's weight, the subquery's index and mask, the match key's id, and a feature number that combines index and feature id. "
     "From the stream of matches of one subquery each feature is kept once, replaced only by an entry with a greater score-distance and no smaller relevance; reading stops only after more than 80 features or when relevance falls 0.25 below the best. "
     "Contexts of a single subquery come by relevance, score-distance, x, y and id, all descending, at most 40.",
     ["inputs", "histories"], "all streams of matches, subqueries and options", "unit tests coalesce fewer than ten entries, so no limit is reached; feature id 0 was dropped until this check found it", [CO],
     [("grid_to_coalesce_entry, coalesce_single, tree_coalesce_single", CO)], observe=["contexts and their entries"])
prop("C25", "Coalescing a stack gives at most 40 contexts near the best, one per feature",
     "Coalescing an empty stack gives nothing, a stack of one the contexts of that subquery, a longer stack the combined contexts; of these the first context of each leading feature is returned, in order, at most 40 of them and none whose relevance is 0.25 or more below the first. Errors of the store are passed on.",
     ["inputs"], "all stacks", "unit tests coalesce stacks of one to three subqueries over a dozen entries; an empty stack panicked until this check found it", [CO], [("coalesce", CO)], observe=["contexts returned"])
prop("C26", "Coalescing several subqueries combines the entries that cover the same place",
     "The subqueries of a stack are taken by zoom and index, each read at its own zoom and at most 100000 matches of it: each match starts a context to which, from the contexts of coarser or equal zoom at the same place, the entries are added whose mask does not overlap the context's; an entry with the mask of the one added before it and a higher relevance replaces it. "
     "The relevance of a context is the sum of its entries', minus 0.01 when it consists of one entry or its first mask is greater than its second at the last subquery. Only contexts less than 0.25 below the best are kept; "
     "they come by relevance and score-distance descending, index ascending, then x, y, id descending.",
     ["inputs"], "all stacks of two or more subqueries", "unit tests stack two or three subqueries with a handful of entries", [CO], [("coalesce_multi", CO)], observe=["contexts and their order, masks and relevances"])
prop("C27", "Collapsing subqueries merges those that differ in match key only, in order",
     "Subqueries equal in weight, index and mask become one subquery that carries the first match key of each of them, in order; subqueries come in the order in which they first occur and none is lost.",
     ["inputs"], "all lists of subqueries", "unit tests collapse two or three subqueries", [CO], [("collapse_phrasematches", CO)], observe=["subqueries and match keys returned"])
prop("C28", "Contexts of one entry or with parts in ascending order lose 0.01 relevance",
     "The relevance of a context is lowered by 0.01 exactly if it has one entry or the mask of its second entry is less than that of its first; nothing else of it changes.",
     ["inputs"], "all contexts with at least one entry", "unit tests cover two fixed contexts", [CO], [("penalize_multi_context", CO)], observe=["context afterwards"])
prop("C30", "Steps through the stack tree are ordered by reach, nearness and best score",
     "Work on a tree node keeps its node, the partial stacks below it, their zoom and the relevance possible; its options are adjusted to the zoom of the node's store, and it counts as near exactly if the adjusted proximity point lies in one of the store's boxes. "
     "Steps are ordered by the node's best relevance, then near before far, then the top score of the store. Partial stacks are indexed by the position of their first entry, all of them.",
     ["inputs"], "all nodes, options and partial stacks", "unit tests never look at the order of steps", [CO], [("CoalesceStep::new, cmp; TreeCoalesceState::new", CO)], observe=["fields and order of steps"])
prop("C31", "Walking the stack tree gives every combination's contexts, within quotas",
     "Subqueries are collapsed, stacked and walked best step first, eight steps at a time, reading each match key once: a match extends every partial stack at the same place with its entry in front, the union of masks and the sum of relevances, and all of these are the partial stacks of those children whose boxes they touch; "
     "the best 40 contexts of each key count towards the result, less the penalty for order. "
     "Of key ranges over more than one phrase that match one word, those of one letter, those of slow stores not restricted to nearby, and all of them are limited to 8, 8 and 40 reads, a slow leaf that cannot exceed 0.75 of the best relevance so far is passed over, and slow stores not restricted to nearby are limited to 40 ranges and 600 reads; "
     "a read gives at most 100000 matches, each feature once per tile. "
     "Walking ends when no step is left or 800 contexts are held and no step can beat the worst; contexts are returned best first and store errors are passed on.",
     ["inputs"], "all trees and options, stores no coarser in a child than in its parent", "unit tests walk trees of a few nodes over a dozen entries, where no quota, limit or early end is reached", [CO, SK],
     [("tree_coalesce, stack_and_coalesce", CO)], observe=["contexts returned"])
