"""Which subqueries can be combined."""
from .rules import ob, part
from .world import *
K = "rust-src/src/gridstore/stackable.rs"
A = "ArenaManager::"
@ob("C22", "stack::is_leaf", ("ret",), K)
def _(W, n): return W.call("StackableNode::is_leaf", [n]).ret
@ob("C23", "stack::arena_new", ("ret",), K)
def _(W): return W.call(A + "new", []).ret
@ob("C23", "stack::arena_get", ("ret",), K)
def _(W, m, i): return W.call(A + "get", [m, i]).ret
@ob("C23", "stack::arena_full", ("ret",), K)
def _(W, m): return W.call(A + "is_full", [m]).ret
@ob("C23", "stack::arena_cull", ("0",), K)
def _(W, m): return {"0": W.call(A + "cull_min", [m]).outs[0]}
@ob("C23", "stack::arena_add", ("ret", "0"), K)
def _(W, m, n):
    r = W.call(A + "add", [m, n]); return {"ret": r.ret, "0": r.outs[0]}
GROW = part("stack::grow", "stackable::binned_stackable")
ADD = part("stack::arena_add", A + "add")
@ob("C22", "stack::grow", ("ret", "8"), K, modulo=[GROW, ADD])
def _(W, *a):
    r = W.call("stackable::binned_stackable", list(a)); return {"ret": r.ret, "8": r.outs[8]}
@ob("C22", "stack::stackable", ("ret",), K, modulo=[GROW])
def _(W, all): return W.call("stackable::stackable", [all]).ret
