"""Mechanical loop cut: inserts a call to a cut function into the condition of one loop of a real function.

    while (COND) BODY     becomes     while (vp_cut(VARS), (COND)) BODY

VARS is the array of the addresses of every variable declared outside the loop and modified in it (assigned,
incremented or address-taken), the variables that occur in COND first.  Nothing else of the text changes; the
harness defines vp_cut: on its first call it asserts the loop invariant (base case), havocs all of VARS and assumes
the invariant; on its second call it asserts the invariant and the step contract and ends the path."""
import json, os, re, subprocess


def _ast(path, func, repo):
    cmd = ["clang", "-fsyntax-only", "-w", "-std=gnu99", "-I" + repo + "/mbus", "-I" + repo, "-Xclang", "-ast-dump=json",
           "-Xclang", "-ast-dump-filter=" + func, path]
    p = subprocess.run(cmd, capture_output=True, timeout=120)
    txt = p.stdout.decode("latin-1")
    dec, pos, out = json.JSONDecoder(), 0, []
    while True:
        k = txt.find("{", pos)
        if k < 0: break
        o, pos = dec.raw_decode(txt, k)
        out.append(o)
    return out


def _rng(n):
    r = n.get("range", {})
    b, e = r.get("begin", {}), r.get("end", {})
    b = b.get("expansionLoc", b); e = e.get("expansionLoc", e)
    if "offset" not in b or "offset" not in e: return None
    return b["offset"], e["offset"] + e.get("tokLen", 0)


def _walk(n, f):
    if isinstance(n, dict):
        f(n)
        for c in n.get("inner", []) or []: _walk(c, f)


def _root(e):
    """variable at the root of an lvalue, None when it goes through a pointer"""
    while e:
        k = e.get("kind")
        if k == "DeclRefExpr": return e["referencedDecl"]
        if k in ("ParenExpr", "ImplicitCastExpr"):
            if e.get("castKind") == "LValueToRValue": return None
            e = (e.get("inner") or [None])[0]; continue
        if k == "MemberExpr":
            if e.get("isArrow"): return None
            e = e["inner"][0]; continue
        if k == "ArraySubscriptExpr":
            b = e["inner"][0]
            if b.get("kind") == "ImplicitCastExpr" and b.get("castKind") == "ArrayToPointerDecay": e = b["inner"][0]; continue
            return None
        return None
    return None


def loops_of(fn):
    out = []
    def visit(n, depth):
        if not isinstance(n, dict): return
        d = depth
        if n.get("kind") in ("WhileStmt", "ForStmt", "DoStmt"): out.append((depth, n)); d += 1
        for c in n.get("inner", []) or []: visit(c, d)
    visit(fn, 0)
    return out


def _vars(fn, loop):
    """-> (condition node, variables declared outside the loop and modified in it, those of the condition first)"""
    inner = loop["inner"]
    if loop["kind"] == "WhileStmt": cond, parts = inner[0], inner
    elif loop["kind"] == "DoStmt": cond, parts = inner[1], inner
    else: cond, parts = inner[2], inner[1:]
    declared, modified, incond = set(), {}, set()
    def dv(n):
        if n.get("kind") == "VarDecl": declared.add(n["id"])
    def mod(n):
        k = n.get("kind"); t = None
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n.get("opcode") == "=" or k == "CompoundAssignOperator"): t = n["inner"][0]
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"): t = n["inner"][0]
        if t is not None:
            r = _root(t)
            if r and r.get("kind") in ("VarDecl", "ParmVarDecl"): modified[r["id"]] = r
    for p in parts: _walk(p, dv)
    for p in parts: _walk(p, mod)
    def inc(n):
        if n.get("kind") == "DeclRefExpr": incond.add(n["referencedDecl"]["id"])
    _walk(cond or {}, inc)
    locs = set()        # locals of this function only
    _walk(fn, lambda n: locs.add(n["id"]) if n.get("kind") in ("VarDecl", "ParmVarDecl") and n.get("storageClass") != "static" else None)
    vs = [r for i, r in modified.items() if i not in declared and i in locs]
    vs.sort(key=lambda r: (r["id"] not in incond, r["name"]))
    return cond, vs


def instrument(path, cut, tmp, repo):
    """-> (new path, error).  cut: {src, func, cuts: [{depth, hook, count (exactly that many loops), vars (only loops that
    modify at least that many outer variables; any number of loops), vartypes, extra: {parameter names to pass too}}]}"""
    try:
        fns = [n for n in _ast(path, cut["func"], repo) if n.get("kind") == "FunctionDecl" and n.get("name") == cut["func"]
               and any(c.get("kind") == "CompoundStmt" for c in n.get("inner", []))]
        if len(fns) != 1: return None, "loopcut: function %s not found" % cut["func"]
        fn = fns[0]
        s = open(path, "rb").read()
        edits, hooks = [], []
        rec = []
        if cut.get("rec"):      # recursion: every call of the function in its own body goes to vp_rec_<function>, which has its contract
            def call(n):
                if n.get("kind") == "CallExpr":
                    c = n["inner"][0]
                    while c and c.get("kind") != "DeclRefExpr": c = (c.get("inner") or [None])[0]
                    if c and c["referencedDecl"].get("name") == cut["func"]: rec.append(_rng(c))
            _walk(fn, call)
            if not rec: return None, "loopcut: %s does not call itself" % cut["func"]
            for b, e in sorted(rec, reverse=True): edits.append((b, b, "vp_rec_", ""))
            rets = fn.get("type", {}).get("qualType", "")
            rets, args = rets[:rets.index("(")], rets[rets.index("("):]
        for c in cut.get("cuts") or ([] if rec else [cut]):
            hook = c.get("hook", "vp_cut"); hooks.append(hook)
            ls = [n for d, n in loops_of(fn) if d == c.get("depth", 0)]
            if "count" in c and len(ls) != c["count"]:
                return None, "loopcut: %d loops at depth %d of %s, expected %d" % (len(ls), c.get("depth", 0), cut["func"], c["count"])
            if "index" in c: ls = [ls[c["index"]]]
            for loop in ls:
                cond, vs = _vars(fn, loop)
                incond = set(); _walk(cond or {}, lambda n: incond.add(n["referencedDecl"]["id"]) if n.get("kind") == "DeclRefExpr" else None)
                if c.get("prefer"): vs.sort(key=lambda r: (r["id"] not in incond, r.get("type", {}).get("qualType") not in c["prefer"], r["name"]))
                if "vars" in c and (len(vs) < c["vars"] or loop["kind"] == "DoStmt"): continue
                if not cond or not cond.get("kind"): return None, "loopcut: loop without condition"
                if loop["kind"] == "DoStmt" and not c.get("do"): return None, "loopcut: do loop"
                if loop["kind"] != "DoStmt" and c.get("do"): return None, "loopcut: not a do loop"
                tys = [r.get("type", {}).get("qualType") for r in vs]
                if c.get("types") and tys[:len(c["types"])] != c["types"]:
                    return None, "loopcut: variables of the loop are %s" % list(zip([r["name"] for r in vs], tys))
                if c.get("prefer") and not c.get("do") and len([t for t in tys if t in c["prefer"]]) != len(c["types"]):
                    return None, "loopcut: state variables of the loop are %s" % list(zip([r["name"] for r in vs], tys))
                b, e = _rng(cond)
                names = ", ".join("&" + r["name"] for r in vs)
                edits.append((b, e, "(%s((void *[]){%s}, %d), (" % (hook, names, len(vs)), "))"))
        for b, e, pre, post in sorted(edits, reverse=True): s = s[:b] + pre.encode() + s[b:e] + post.encode() + s[e:]
        # the hooks' declarations come before the first line, so that no line number changes
        if rec:     # declared just before the function, where its types are known
            b, _ = _rng(fn)
            s = s[:b] + ("extern %s vp_rec_%s%s; " % (rets, cut["func"], args)).encode() + s[b:]
        s = ("".join("extern void %s(void **, int);\n" % h for h in sorted(set(hooks))) + '#line 1 "%s"\n' % path).encode() + s
        out = os.path.join(tmp, "cut_%s_%d_%s" % (cut["func"], abs(hash(json.dumps(cut, sort_keys=True))) % 10**6, os.path.basename(path)))
        open(out, "wb").write(s)
        return out, None
    except Exception as ex:
        return None, "loopcut: %r" % (ex,)


if __name__ == "__main__":
    import sys
    print(instrument(sys.argv[1], {"func": sys.argv[2], "depth": int(sys.argv[3]) if len(sys.argv) > 3 else 0}, "/tmp", "/repo"))
