"""Building a store."""
from .rules import ob
from .world import *
B = "rust-src/src/gridstore/builder.rs"
C = "rust-src/src/gridstore/common.rs"
G = "GridStoreBuilder::"
def st(r, *ks): return {"ret": r.ret, **{str(k): r.outs[k] for k in ks}}

@ob("C13", "builder::builder_new", ("ret",), B)
def _(W, path): return W.call(G + "new", [path]).ret
@ob("C13", "builder::insert", ("ret", "0"), B)
def _(W, b, key, vals): return st(W.call(G + "insert", [b, key, vals]), 0)
@ob("C13", "builder::append", ("ret", "0"), B)
def _(W, b, key, vals): return st(W.call(G + "append", [b, key, vals]), 0)
@ob("C13", "builder::compact_append", ("ret", "0"), B)
def _(W, b, *a): return st(W.call(G + "compact_append", [b, *a]), 0)
@ob("C13", "common::somewhat_eager_groupby", ("ret",), C)
def _(W, it, key): return W.call("common::somewhat_eager_groupby", [it, key]).ret
@ob("C14", "builder::renumber", ("ret", "0"), B)
def _(W, b, m): return st(W.call(G + "renumber", [b, m]), 0)
@ob("C15", "builder::load_bin_boundaries", ("ret", "0"), B)
def _(W, b, m): return st(W.call(G + "load_bin_boundaries", [b, m]), 0)
@ob("C12", "builder::encode", ("ret",), B)
def _(W, v): return W.call("builder::get_encoded_value", [v]).ret
@ob("C15", "builder::finish", ("ret", "io"), B)
def _(W, b): 
    r = W.call(G + "finish", [b]); return {"ret": r.ret, "io": r.io}
