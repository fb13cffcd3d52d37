"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "rust-src/src/gridstore/"
F, C, S, B, ST, K, CO = (G + x for x in ("gridstore_format.rs", "common.rs", "spatial.rs", "builder.rs", "store.rs", "stackable.rs", "coalesce.rs"))
EQ = "canonical value-flow terms of the type-checked source (THIR) compared with reference semantics; structural refuter"
PROOF = ("Every obligation is an equality, for all inputs, of the canonical term computed from the current source with the term of the reference function "
         "(both normalised by the same rules); trusted: rustc's type checker, the models of std/dependency functions in sa/models.py, the reference text in spec/src. "
         "Differences that cannot be turned into a definite disagreement are reported as undetermined, not as violations.")
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), tech=EQ, level="proof", note=PROOF):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                  anchors={"files": files, **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                           "mechanism": [dict(name=a, where=b) for a, b in mech], **({"observe_at": list(observe)} if observe else {})},
                  _tech=tech, _level=level, _note=note))

prop("C01", "Every stored element reads back as it was written, and occupies its stated size",
     "Each kind of element of the binary record format (32-bit words, relevance-and-score entries, positions, record heads) is laid out in its documented byte order and width, and reading the bytes written for any value gives that value back. "
     "A position takes one byte more than the smallest offset width that can hold its offset relative to where it is stored, and the size an element reports is the number of bytes it writes.",
     ["inputs"], "all element values and all byte buffers positioned at an element",
     "the one stable test writes a handful of small values; offsets needing 2, 3 or 4 bytes and high bits of the fields are not reached",
     [F], [("VarEncodable/FixedEncodable/UniformEncodable impls", F)], observe=["bytes appended to the writer", "values returned by the readers"])
prop("C02", "Vectors keep their elements, order and length across writing and reading",
     "A list of any length written to the format is read back with the same length, the same elements in the same order, whether fetched by position, iterated by reference or by value. "
     "The bytes of a list are a length prefix, the element width where elements share one, then the elements, starting exactly at the returned offset, and earlier content of the buffer is never altered.",
     ["inputs"], "all element lists of all three kinds, at every position of the buffer",
     "the stable test reads short lists once; list lengths past one length byte, mixed element widths and the by-position access of the last element are unsampled",
     [F], [("write_fixed_vec/write_var_vec/write_uniform_vec", F), ("FixedVec/VarVec/UniformVec", F)], observe=["bytes appended", "get, len, iter, into_iter"])
prop("C03", "Scalars, offsets and the record root address exactly what was written",
     "Writing a scalar returns an offset from which the same scalar is read, the head of a record is found at the end of the buffer at its fixed width, and offsets survive being stored as variable-length, 32-bit or shortest-width pointers. "
     "Offsets stored in fewer bytes are widened back without loss.",
     ["inputs"], "all scalars, offsets and buffers",
     "the stable test only follows offsets below 256 in a small buffer",
     [F], [("write_*_scalar, read_*_scalar, read_root", F), ("to/from_fixed_pointer, to/from_var_pointer", F)], observe=["offset values", "reader results"])
prop("C04", "Relevance codes are stable: 0.4, 0.6, 0.8 and 1.0 map to 0..3 and back",
     "The four relevance values the store supports map to the codes 0 to 3 and back to the same values, and any other relevance is treated as full relevance.",
     ["inputs"], "all relevance values and all codes",
     "unit tests use three of the values, never an unlisted one", [C], [("relev_float_to_int, relev_int_to_float", C)])
prop("C05", "Database keys sort by kind, phrase, language; scans see exactly the request",
     "A database key is the kind byte, the phrase id with its most significant byte first, then the language bits without leading zero bytes (nothing at all for every language, a single zero byte for none). "
     "A scan starts at the first requested phrase id and accepts exactly the keys of the same kind whose phrase id is the requested one, or lies in the half-open range.",
     ["inputs"], "all keys, kinds, language sets, exact ids and ranges, and all stored keys",
     "tests use a few small ids and language sets; ordering of ids above 255 and the language edge cases need all values", [C],
     [("GridKey::write_to", C), ("MatchKey::write_start_to, matches_key", C)], observe=["bytes of the key", "accept/reject of a stored key"])
prop("C06", "A stored key matches a language set exactly when they share a language",
     "A stored key without language bytes matches every requested language set; otherwise it matches exactly when the language bits it stores, read most significant byte first, have a bit in common with the requested set.",
     ["inputs"], "all stored keys and requested language sets",
     "tests cover a few bit patterns, not the variable-length encodings", [C], [("MatchKey::matches_language", C)])
prop("C07", "Match options keep pointing at the same ground across zoom levels",
     "Moving match options to another zoom keeps the bounding box covering the same tiles (floor when zooming out; full cover when zooming in) and the proximity point in the middle of its tile, and the nearby restriction intersects the box with 25 miles around the point, clipped to the grid. "
     "Options at the target zoom, without proximity or without box keep what is absent absent; defaults and the whole-world box are as documented.",
     ["inputs"], "all boxes, points and zoom pairs the 16-bit grid admits",
     "unit tests cover a few pairs of zooms and points away from the grid edge (the overflow at the edge was found by this check)", [C, S],
     [("MatchOpts::adjust_to_zoom, with_nearby_only", C), ("adjust_bbox_zoom, global_bbox_for_zoom", S)], observe=["the options returned"])
prop("C08", "The bounded queue keeps exactly the best elements it has seen",
     "A queue bounded to n elements accepts a new element while fewer than n are held, and afterwards only one greater than its current least, which it then replaces; best and worst are reported and removed correctly and the final listing is in descending order.",
     ["histories"], "every sequence of pushes and pops, every bound including zero",
     "no test drives the queue past its bound in adverse order", [C], [("ConstrainedPriorityQueue", C)], observe=["return values and content after each operation"])
prop("C09", "A bounding-box filter returns exactly the positions inside the box, in order",
     "Filtering a descending list of positions by a bounding box returns, in stored order, the positions whose x and y both lie within the inclusive box, found through the index range that the box's corner codes delimit; a list wholly outside yields nothing.",
     ["inputs"], "all descending position lists and boxes",
     "tests use lists of a few positions; search boundaries at the first and last element need every length", [S], [("bbox_range, bbox_filter, bbox_proximity_filter", S)])
prop("C10", "Proximity iteration lists every position, nearest along the curve first",
     "Iterating a position list by proximity yields every position exactly once (only those in the box when a box is given), merging the runs before and after the point by distance along the curve, with ties to the later run.",
     ["inputs"], "all descending position lists and points",
     "tests use short lists and a few points", [S], [("proximity, bbox_proximity_filter", S)])
prop("C11", "Distance, radius and score-with-distance follow their formulas",
     "Tile distance is Euclidean, the proximity radius scales by 1.5 per zoom level around zoom 14, and the score-with-distance grows exponentially with the score (scores above 7 count as 7) and inversely with the distance in units of that radius, at least zoom 6 and at least 0.8 tiles, saturating beyond the radius.",
     ["inputs"], "all coordinates, zooms, radii and scores",
     "tests sample rounded values of a handful of arguments, and table entries for most zooms are never read", [S], [("tile_dist, proximity_radius, scoredist", S)])
prop("C20", "Contexts order by relevance, then scoredist, index, position and id",
     "Contexts compare by relevance, then the score-with-distance of their first entry, then lower subquery index, then x, y and id, and equality agrees with that order.",
     ["inputs"], "all pairs of contexts", "tests compare few contexts and no late tie-breaks", [C], [("CoalesceContext ordering", C)])

NA = []
exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    claimed = [p for p in P if p["id"] not in {n for n, _ in NA}]
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
           "checks": [dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                           technique=p["_tech"], level=p["_level"], level_note=p["_note"]) for p in claimed],
           "not_applicable": [dict(property=a, reason=b) for a, b in NA]}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
