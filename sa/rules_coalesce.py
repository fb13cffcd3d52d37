"""Combining matches."""
from .rules import ob, part
from .world import *
L = "rust-src/src/gridstore/coalesce.rs"
ENTRY = part("coalesce::entry_of", "coalesce::grid_to_coalesce_entry")
STREAM = part("store::streaming", "GridStore::streaming_get_matching")
ZOOM = part("common::adjust_to_zoom", "MatchOpts::adjust_to_zoom")
@ob("C24", "coalesce::entry_of", ("ret",), L)
def _(W, *a): return W.call("coalesce::grid_to_coalesce_entry", list(a)).ret
@ob("C24", "coalesce::single", ("ret",), L, modulo=[ENTRY, STREAM])
def _(W, *a): return W.call("coalesce::coalesce_single", list(a)).ret
@ob("C24", "coalesce::tree_single", ("ret",), L, modulo=[ENTRY])
def _(W, *a): return W.call("coalesce::tree_coalesce_single", list(a)).ret
SINGLE = part("coalesce::single", "coalesce::coalesce_single")
@ob("C26", "coalesce::multi", ("ret",), L, modulo=[ENTRY, STREAM, ZOOM])
def _(W, *a): return W.call("coalesce::coalesce_multi", list(a)).ret
MULTI = part("coalesce::multi", "coalesce::coalesce_multi")
@ob("C25", "coalesce::coalesce", ("ret",), L, modulo=[SINGLE, MULTI])
def _(W, *a): return W.call("coalesce::coalesce", list(a)).ret
@ob("C27", "coalesce::collapse", ("ret",), L)
def _(W, *a): return W.call("coalesce::collapse_phrasematches", list(a)).ret
@ob("C28", "coalesce::penalize", ("0",), L)
def _(W, c): return {"0": W.call("coalesce::penalize_multi_context", [c]).outs[0]}
@ob("C30", "coalesce::tree_state", ("ret",), L)
def _(W, *a): return W.call("TreeCoalesceState::new", list(a)).ret
@ob("C30", "coalesce::step_new", ("ret",), L)
def _(W, *a): return W.call("CoalesceStep::new", list(a)).ret
@ob("C30", "coalesce::step_order", ("ret",), L)
def _(W, *a): return W.call("CoalesceStep as Ord::cmp", list(a)).ret
STATE = part("coalesce::tree_state", "TreeCoalesceState::new")
STEP = part("coalesce::step_new", "CoalesceStep::new")
TSINGLE = part("coalesce::tree_single", "coalesce::tree_coalesce_single")
PEN = part("coalesce::penalize", "coalesce::penalize_multi_context")
BOX = part("spatial::adjust_bbox_zoom", "spatial::adjust_bbox_zoom")
@ob("C31", "coalesce::tree", ("ret",), L, modulo=[ENTRY, STREAM, STATE, STEP, TSINGLE, PEN, BOX])
def _(W, *a): return W.call("coalesce::tree_coalesce", list(a)).ret
COLLAPSE = part("coalesce::collapse", "coalesce::collapse_phrasematches")
STACK = part("stack::stackable", "stackable::stackable")
TREE = part("coalesce::tree", "coalesce::tree_coalesce")
@ob("C31", "coalesce::stack_and_coalesce", ("ret",), L, modulo=[COLLAPSE, STACK, TREE])
def _(W, *a): return W.call("coalesce::stack_and_coalesce", list(a)).ret
