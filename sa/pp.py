import sys, json
def pat(p):
    k = p.get("k")
    if k == "wild": return "_"
    if k == "bind": return ("mut " if p.get("mut") else "") + p["name"] + "#" + str(p["var"]) + ("&" if p.get("by") not in (None, "val", False) else "") + ("@" + pat(p["sub"]) if p.get("sub") else "")
    if k == "variant": return "%s::%s(%s)" % (p["adt"], p["variant"], ",".join(str(f[0]) + ":" + pat(f[1]) for f in p["fields"]))
    if k == "leaf": return "{%s}" % ",".join(str(f[0]) + ":" + pat(f[1]) for f in p["fields"])
    if k == "deref": return "&" + pat(p["sub"])
    if k == "or": return "|".join(map(pat, p.get("pats") or p.get("ps")))
    return json.dumps({a: b for a, b in p.items() if a not in ("t", "sp")})
def e(x, ind=0):
    if x is None: return "-"
    k = x["k"]; I = "  " * ind
    r = lambda y: e(y, ind + 1)
    if k == "use" or k == "never": return r(x["e"])
    if k == "coerce": return r(x["e"])
    if k == "lit": return str(x["v"])
    if k == "var": return "%s%s" % (x["var"], "^" if x.get("up") else "")
    if k == "field": return "%s.%s" % (r(x["e"]), x["name"])
    if k == "deref": return "*" + r(x["e"])
    if k == "borrow": return "&%s%s" % ("mut " if x["mut"] else "", r(x["e"]))
    if k == "call": return "%s(%s)" % (r(x["f"]), ", ".join(map(r, x["args"])))
    if k == "fn": return "<%s>" % (x.get("res") or x["path"])
    if k == "block":
        out = []
        for s in x["stmts"]:
            if "k" in s and s["k"] == "let" or "pat" in s or "p" in s:
                out.append("let %s = %s%s" % (pat(s["p"]), r(s.get("init")), " else " + r(s["els"]) if s.get("els") else ""))
            else: out.append(r(s.get("e", s)))
        if x.get("e"): out.append(r(x["e"]))
        return "{%s\n%s" % ((" '" + str(x["lbl"])) if x.get("lbl") else "", "".join("%s  %s;\n" % (I, o) for o in out)) + I + "}"
    if k == "if": return "if %s %s else %s" % (r(x["c"]), r(x["a"]), r(x["b"]) if x.get("b") else "-")
    if k == "match": return "match[%s] %s {%s}" % (x.get("src"), r(x["e"]), "".join("\n%s  %s%s => %s" % (I, pat(a["p"]), " if " + r(a["g"]) if a.get("g") else "", r(a["b"])) for a in x["arms"]))
    if k in ("bin", "logic", "assignop"): return "(%s %s %s)" % (r(x["a"]), x["op"], r(x["b"]))
    if k == "assign": return "%s = %s" % (r(x["a"]), r(x["b"]))
    if k == "closure": return "|%s| %s" % (",".join(pat(p) for p in x["fn"]["params"]), r(x["fn"]["body"]))
    if k == "loop": return "loop %s %s" % (x["lbl"], r(x["e"]))
    if k == "let": return "let(%s = %s)" % (pat(x["p"]), r(x["e"]))
    return k + "[" + ",".join("%s:%s" % (a, e(b, ind + 1) if isinstance(b, dict) and "k" in b else ("[" + ",".join(e(z, ind + 1) if isinstance(z, dict) and "k" in z else str(z) for z in b) + "]" if isinstance(b, list) else str(b))) for a, b in x.items() if a not in ("k", "t", "sp", "id")) + "]"
if __name__ == "__main__":
    sys.path.insert(0, "/verif")
    from sa import facts
    F = facts.core() if "--spec" not in sys.argv else facts.spec()
    for b in F["bodies"]:
        if sys.argv[1] in b["path"]:
            print(b["path"], b["kind"], b["impl_trait"], b["self_ty"], [pat(p) for p in b["fn"]["params"]]); print(e(b["fn"]["body"])); print()
