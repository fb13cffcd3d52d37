"""Keys, match options, orders, bounded queue, relevance codes, spatial filters and scores."""
from .rules import ob
from .world import *

C = "rust-src/src/gridstore/common.rs"
S = "rust-src/src/gridstore/spatial.rs"

# ---- keys
@ob("C05", "common::key_bytes", ("ret", "2"), C)
def _(W, key, marker, out):
    r = W.call("GridKey::write_to", [key, marker, out]); return {"ret": r.ret, "2": r.outs[2]}
@ob("C05", "common::scan_start", ("ret", "2"), C)
def _(W, key, marker, out):
    r = W.call("MatchKey::write_start_to", [key, marker, out]); return {"ret": r.ret, "2": r.outs[2]}
@ob("C05", "common::in_scan", ("ret",), C)
def _(W, key, marker, k): return W.call("MatchKey::matches_key", [key, marker, k]).ret
@ob("C06", "common::language_matches", ("ret",), C)
def _(W, key, k): return W.call("MatchKey::matches_language", [key, k]).ret

# ---- options
@ob("C07", "common::default_opts", ("ret",), C)
def _(W): return W.call("MatchOpts as Default::default", []).ret
@ob("C07", "common::default_match_key", ("ret",), C)
def _(W): return W.call("MatchKey as Default::default", []).ret
@ob("C07", "common::default_match_key_with_id", ("ret",), C)
def _(W): return W.call("MatchKeyWithId as Default::default", []).ret
@ob("C07", "common::adjust_to_zoom", ("ret",), C)
def _(W, o, z): return W.call("MatchOpts::adjust_to_zoom", [o, z]).ret
@ob("C07", "common::nearby_only", ("ret",), C)
def _(W, o): return W.call("MatchOpts::with_nearby_only", [o]).ret
@ob("C07", "spatial::adjust_bbox_zoom", ("ret",), S)
def _(W, b, a, z): return W.call("spatial::adjust_bbox_zoom", [b, a, z]).ret
@ob("C07", "spatial::world_box", ("ret",), S)
def _(W, z): return W.call("spatial::global_bbox_for_zoom", [z]).ret

# ---- contexts
@ob("C20", "common::context_order", ("ret",), C)
def _(W, a, b): return W.call("CoalesceContext as Ord::cmp", [a, b]).ret
@ob("C20", "common::context_partial_order", ("ret",), C)
def _(W, a, b): return W.call("CoalesceContext as PartialOrd::partial_cmp", [a, b]).ret
@ob("C20", "common::context_same", ("ret",), C)
def _(W, a, b): return W.call("CoalesceContext as PartialEq::eq", [a, b]).ret

# ---- bounded queue, observed through its public operations after any push
Q = "ConstrainedPriorityQueue::"
@ob("C08", "common::queue_new", ("ret",), C)
def _(W, n): return W.call(Q + "new", [n], elem="u32").ret
@ob("C08", "common::queue_push", ("ret", "0"), C)
def _(W, q, x):
    r = W.call(Q + "push", [q, x], elem="u32"); return {"ret": r.ret, "0": r.outs[0]}
@ob("C08", "common::queue_pop", ("ret", "0"), C)
def _(W, q):
    r = W.call(Q + "pop_max", [q], elem="u32"); return {"ret": r.ret, "0": r.outs[0]}
@ob("C08", "common::queue_min", ("ret",), C)
def _(W, q): return W.call(Q + "peek_min", [q], elem="u32").ret
@ob("C08", "common::queue_max", ("ret",), C)
def _(W, q): return W.call(Q + "peek_max", [q], elem="u32").ret
@ob("C08", "common::queue_len", ("ret",), C)
def _(W, q): return W.call(Q + "len", [q], elem="u32").ret
@ob("C08", "common::queue_desc", ("ret",), C)
def _(W, q): return W.call(Q + "into_vec_desc", [q], elem="u32").ret

# ---- relevance codes
@ob("C04", "common::relev_code", ("ret",), C)
def _(W, r): return W.call("common::relev_float_to_int", [r]).ret
@ob("C04", "common::relev_value", ("ret",), C)
def _(W, r): return W.call("common::relev_int_to_float", [r]).ret

# ---- spatial filters
def coords(W, d, at): return W.call("gridstore_format::read_uniform_vec_raw", [d, at], elem="Coord").ret
@ob("C09", "spatial::bbox_range", ("ret",), S)
def _(W, d, at, b): return W.call("spatial::bbox_range", [coords(W, d, at), b]).ret
@ob("C09", "spatial::bbox_filter", ("ret",), S)
def _(W, d, at, b): return W.call("spatial::bbox_filter", [coords(W, d, at), b]).ret
@ob(["C09", "C10"], "spatial::bbox_proximity", ("ret",), S)
def _(W, d, at, b, p): return W.call("spatial::bbox_proximity_filter", [coords(W, d, at), b, p]).ret
@ob("C10", "spatial::proximity", ("ret",), S)
def _(W, d, at, p): return W.call("spatial::proximity", [coords(W, d, at), p]).ret
# ---- distance and score
@ob("C11", "spatial::tile_dist", ("ret",), S)
def _(W, a, b, c, d): return W.call("spatial::tile_dist", [a, b, c, d]).ret
@ob("C11", "spatial::proximity_radius", ("ret",), S)
def _(W, z, r): return W.call("spatial::proximity_radius", [z, r]).ret
@ob("C11", "spatial::scoredist", ("ret",), S)
def _(W, z, d, s, r): return W.call("spatial::scoredist", [z, d, s, r]).ret
