import re
from common import *
from ffi import *
from mir import Graph

RULE = ("Typestate over every exported C function that reports success or failure (bool results; 32-bit results where 0xFFFFFFFF means failure), with its "
        "callees in the FFI crate inlined, path-sensitive in enum variants, booleans and constants: on every path to a return, the last error "
        "stored in this call is ERROR_SUCCESS if the result means success and a non-zero code if it means failure; a path that stores none is reported.")

NOERR = {"storm::SFileSetLastError", "storm::SFileGetLastError", "storm::SFileSetLocale", "storm::SFileGetLocale"}


class E(Esp):
    max_states = 400000

    def __init__(self, g, setters, sentinel):
        super().__init__(g)
        self.setters, self.sentinel = setters, sentinel
        self.rets = []

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        if p in self.setters:
            v = args[0]
            return [(None, ("set", v[1]) if v is not None and v[0] == "i" else ("set", None))]
        if not k:
            return [(None, ("callback", None))]
        if p == "core::clone::Clone::clone" and args and args[0] is not None and args[0][0] == "r":
            return [(self.get_path(env, args[0][1], args[0][2]), ust)]
        if p.endswith("SFileGetLastError") and ust[0] == "set" and ust[1] is not None:
            return [(("i", ust[1]), ust)]
        return [(None, ust)]

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def setters_of(prog):
    root = "storm::SFileSetLastError"
    out = {root}
    cg, _ = prog.callgraph()
    for (c, sp, bb) in cg.get(root, []):
        f = prog.fns[c]
        if "{closure" not in c and f["argc"] == 1 and f["locals"][1]["ty"] == "u32":
            out.add(c)
    return out


def run(ctx):
    prog = ctx.prog
    if not ctx.need("storm::SFileSetLastError"):
        return
    setters = setters_of(prog)
    for p in exported(prog):
        if p in NOERR:
            continue
        ty = prog.fns[p]["locals"][0]["ty"]
        if ty not in ("bool", "u32"):
            continue
        ctx.count("exported_functions")
        g = Graph(prog, p, inline=lambda q, fr: q.startswith("storm::") and q not in setters and not q.endswith("::SFileGetLastError"))
        ctx.functions |= {fr.path for fr in g.frames}
        e = E(g, setters, ty)
        e.run([(g.rpo[0], {}, ("none", None), "in")])
        if e.exceeded:
            ctx.violation("undecided:" + p, "too many paths in %s" % p, prog.fns[p]["span"])
        for (rv, ust, cur) in e.rets:
            ctx.count("return_states")
            val = rv[1] if rv is not None and rv[0] == "i" else None
            if ty == "bool":
                res = {1: "ok", 0: "fail", None: "unknown"}[val]
            else:
                res = "fail" if val == 0xFFFFFFFF else "ok"
            if ust[0] == "none":
                ctx.violation("unset:%s:%s" % (p, res), "%s can return %s without setting the last error; the caller sees the code of an earlier call" % (p, val), prog.fns[p]["span"], e.trail(cur))
            elif ust[0] == "callback":
                ctx.violation("callback:%s" % p, "%s can return with whatever last error the caller's callback left" % p, prog.fns[p]["span"], e.trail(cur))
            elif ust[1] is None or res == "unknown":
                ctx.violation("undetermined:%s:%s" % (p, res), "%s returns %s with a last error that is not tied to the result" % (p, val), prog.fns[p]["span"], e.trail(cur))
            elif res == "ok" and ust[1] != 0:
                ctx.violation("error-on-success:%s:%d" % (p, ust[1]), "%s reports success but leaves last error %d" % (p, ust[1]), prog.fns[p]["span"], e.trail(cur))
            elif res == "fail" and ust[1] == 0:
                ctx.violation("success-on-failure:%s" % p, "%s reports failure but leaves last error ERROR_SUCCESS" % p, prog.fns[p]["span"], e.trail(cur))
            if len(ctx.samples) < 10:
                ctx.sample("%s returns %s with last error %s" % (p, val, ust[1]))
    ctx.floor("exported_functions", 12)
    ctx.floor("return_states", 20)
