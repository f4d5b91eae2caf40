import re
from common import *
from ffi import *
from terms import Interp, show, subterms, path_facts, Intervals, mk, add, C

RULE = ("Every dereference of a raw-pointer argument of an exported C function, and every call that dereferences one (CStr::from_ptr, ptr::copy, "
        "slice::from_raw_parts, ...), in the function or any FFI-crate callee (inlined), is preceded on every feasible path by a test that the "
        "pointer is not NULL.  Paths are followed with the facts their branches establish about arguments; infeasible combinations (interval reasoning on sizes) are pruned.")

OFFSET = re.compile(r"_ptr::<impl \*\w+ T>::(wrapping_)?(add|offset|sub)$")
HARMLESS = re.compile(r"::is_null$|::addr$|::cast(::<.*>)?$|^core::fmt::|::eq$|::ne$|const_ptr|mut_ptr.*::(cast|is_null|addr|wrapping_add)|log::|::clone$")


def strip(t):
    while t.op == "cast" and t.a and str(t.a[0]).startswith("*"):
        t = t.a[1]
    return t


def raw_params(fn):
    out = {}
    for i in range(1, fn["argc"] + 1):
        ty = fn["locals"][i]["ty"]
        if ty.startswith("*mut ") or ty.startswith("*const "):
            out[i] = ty
    return out


def param_of(t):
    t = strip(t)
    while t.op in ("call", "pure") and OFFSET.search(str(t.a[0])):
        t = strip(t.a[-1][0])
    if t.op == "param":
        return t
    return None


def offset_of(t):
    """elements a pointer was moved by from the argument it comes from (None: not known)"""
    t = strip(t)
    o = C(0)
    while t.op in ("call", "pure") and OFFSET.search(str(t.a[0])):
        if "sub" in str(t.a[0]).rsplit("::", 1)[-1]:
            return None
        o = add(o, t.a[-1][1])
        t = strip(t.a[-1][0])
    return o


def relevant_fn(fn):
    def rel(c):
        return any(x.op == "param" for x in subterms(c)) and not any(x.op in ("call", "out", "next", "phi") for x in subterms(c))
    return rel


def deref_sites(I, g):
    """(node, pointer param term, accessed type, 'read'|'write', stmt, frame, state)"""
    for nid, fr, x, st in I.steps():
        places = [(x["p"], "write")]
        v = x["v"]
        if "p" in v:
            places.append((v["p"], "read" if v["r"] not in ("addr",) else "addr"))
        for key in ("o", "a", "b"):
            o = v.get(key)
            if isinstance(o, dict) and "k" not in o:
                places.append((o.get("c") or o.get("m"), "read"))
        for o in v.get("ops", []) or []:
            if "k" not in o:
                places.append((o.get("c") or o.get("m"), "read"))
        for p, how in places:
            if len(p) > 1 and p[1] and p[1][0][0] == "d" and how != "addr":
                ty = fr.fn["locals"][p[0]]["ty"]
                if ty.startswith("*"):
                    t = I.simp(I.read(st, (("L", fr.id, p[0]), ())))
                    yield nid, t, ty, how, x, fr, st


def run(ctx):
    prog = ctx.prog
    for p in exported(prog):
        fn = prog.fns[p]
        rp = raw_params(fn)
        if not rp:
            continue
        ctx.count("exported_functions")
        g = ffi_graph(prog, p)
        ctx.functions |= {fr.path for fr in g.frames}
        I = Interp(g)
        need = []
        for nid, t, ty, how, x, fr, st in deref_sites(I, g):
            q = param_of(t)
            if q is None:
                ctx.count("other_raw_derefs")
                if not re.search(r"as_ptr|as_mut_ptr", show(t)):
                    ctx.violation("opaque-deref:%s" % p, "%s dereferences a raw pointer that is not one of its arguments: %s" % (p, show(t)[:120]), x.get("sp"))
                continue
            need.append((nid, q, "dereference as %s" % ty, x.get("sp")))
        for s in I.sites():
            if HARMLESS.search(s.fn) or s.fn.startswith("storm::") or not s.k:
                continue
            for v in s.vals:
                q = param_of(v)
                if q is not None and q.op == "param" and q.a[0] in rp:
                    need.append((s.node, q, "call of " + s.fn, s.sp))
        if not need:
            continue
        pf = path_facts(I, {n[0] for n in need}, relevant_fn(fn))
        if pf is None:
            ctx.violation("undecided:" + p, "too many paths in " + p, fn["span"])
            continue
        for nid, q, what, sp in need:
            ctx.count("pointer_uses")
            bad = None
            for fs in pf[nid]:
                if not any(c.op == "isnull" and strip(c.a[0]) is q and not pol for c, pol in fs):
                    # maybe NULL is infeasible here
                    isn = {c for c, pol in fs if c.op == "isnull" and strip(c.a[0]) is q}
                    bad = fs
                    break
            if bad is not None:
                ctx.violation("null:%s:%s" % (p, q.a[1]), "%s can %s of argument `%s` without having checked it for NULL" % (p, what, q.a[1]), sp,
                              ["path condition: " + ", ".join(("" if pol else "not ") + show(c)[:60] for c, pol in bad)])
            else:
                ctx.sample("%s: %s of `%s`" % (p, what, q.a[1]))
    ctx.floor("exported_functions", 10)
    ctx.floor("pointer_uses", 10)
