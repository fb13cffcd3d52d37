"""Reading a store."""
from .rules import ob, part
from .rules_common import coords
from .world import *
ST = "rust-src/src/gridstore/store.rs"
G = "GridStore::"
@ob("C21", "store::open", ("ret",), ST)
def _(W, path, *a): return W.call(G + "new_with_options", [path, *a]).ret
@ob("C21", "store::open_plain", ("ret",), ST)
def _(W, path): return W.call(G + "new", [path]).ret
@ob("C21", "store::might_be_slow", ("ret",), ST)
def _(W, s): return W.call(G + "might_be_slow", [s]).ret
@ob("C16", "store::get", ("ret",), ST)
def _(W, s, k): return W.call(G + "get", [s, k]).ret
@ob("C17", "store::keys", ("ret",), ST)
def _(W, s): return W.call(G + "keys", [s]).ret
@ob("C17", "store::iter", ("ret",), ST)
def _(W, s): return W.call(G + "iter", [s]).ret
cells = lambda W, d, at, *rest: [coords(W, d, at), *rest]
SPATIAL = [part("spatial::bbox_filter", "spatial::bbox_filter", cells), part("spatial::proximity", "spatial::proximity", cells),
           part("spatial::bbox_proximity", "spatial::bbox_proximity_filter", cells), part("spatial::scoredist", "spatial::scoredist"),
           part("spatial::tile_dist", "spatial::tile_dist"), part("spatial::proximity_radius", "spatial::proximity_radius")]
@ob("C18", "store::matches", ("ret",), ST, modulo=SPATIAL)
def _(W, d, o, l, r): return W.call("store::decode_matching_value", [d, o, l, r]).ret
@ob(["C18", "C19"], "store::streaming", ("ret",), ST, modulo=[part("store::matches", "store::decode_matching_value")])
def _(W, s, k, o, n): return W.call(G + "streaming_get_matching", [s, k, o, n]).ret
