import re
from common import *
from ffi import *
from errflow import _Walk
from c10 import setters_of
from mir import Graph, RESULT, OPTION, ERR, head

RULE = ("Failure-flow over every exported C function that reports success or failure, with its callees in the FFI crate inlined and path-sensitive in the last error: for every call "
        "that can fail (archive library, file system, string conversion), assume it failed (Err, or None where the library says there is no such file) and follow every path to a return: "
        "the function must report failure.  Tolerated by the API: (attributes) that cannot be loaded count as not available in SFileVerifyFile, names with an embedded NUL cannot be "
        "expressed in C and are skipped by the enumerating functions, names that do not exist are skipped when a whole archive is verified.  Success also means that every output argument that is not NULL was "
        "written (unless there were no bytes to deliver), and that no write whose count may be short (io::Write::write) stands for a complete one.")

LIB = re.compile(r"^(mopaq::|std::fs::|core::ffi::c_str::|alloc::ffi::c_str::|std::io::|<.* as std::io::)")

SHORT = re.compile(r"\bWrite(>)?::write(_vectored)?$|\bRead(>)?::read(_vectored)?$|FileExt>?::(write_at|read_at)$")


class W(_Walk):
    max_states = 200000

    def __init__(self, g, fail_of, setters):
        super().__init__(g, fail_of)
        self.setters = setters

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        if p in self.setters:
            v = args[0]
            return [(None, v[1] if v is not None and v[0] == "i" else None)]
        if p.endswith("::SFileGetLastError"):
            return [(("i", ust) if ust is not None else None, ust)]
        return super().on_call(env, ust, node, fr, t, args)

    def on_end(self, env, ust, node, kind):
        pass


def failed(prog, p):
    ty = prog.fns[p]["locals"][0]["ty"]

    def f(rv, env, ust):
        v = rv[1] if rv is not None and rv[0] == "i" else None
        if ty == "bool":
            return {0: "fail", 1: "ok", None: "unknown"}[v]
        return "fail" if v == 0xFFFFFFFF else "ok"
    return f


def tolerated(prog, p, q, absent, g, fr):
    """documented leniency"""
    if q == "mopaq::archive::Archive::load_attributes" and (p.endswith("::SFileVerifyFile") or p.endswith("::SFileVerifyArchive")):
        return "attributes are optional"
    if q.startswith("alloc::ffi::c_str::CString::new") and p.split("::")[-1] in ("SFileEnumFiles", "SFileVerifyArchive"):
        return "names that C cannot express"
    if p.endswith("::SFileVerifyArchive") and (absent or q.startswith("core::ffi::c_str::CStr::to_str")):
        return "a listed name that does not exist is not damage"
    return None


def run(ctx):
    prog = ctx.prog
    setters = setters_of(prog)
    for p in exported(prog):
        ty = prog.fns[p]["locals"][0]["ty"]
        if ty not in ("bool", "u32"):
            continue
        ctx.count("exported_functions")
        g = Graph(prog, p, inline=lambda q, fr: q.startswith("storm::") and q not in setters and not q.endswith("::SFileGetLastError"))
        ctx.functions |= {fr.path for fr in g.frames}
        for nid in g.rpo:
            n = g.nodes[nid]
            if not n.term or n.term[0] != "call" or n.term[2].get("dest") is None:
                continue
            fr, t = n.term[1], n.term[2]
            d = t["dest"]
            rty = fr.fn["locals"][d[0]]["ty"] if len(d) == 1 or not d[1] else d[2]
            if head(rty) != RESULT or "PoisonError" in rty or "fmt::Error" in rty:
                continue
            k = t["f"].get("k") or {}
            q = k.get("res") or k.get("fn") or ""
            if SHORT.search(q) or SHORT.search(k.get("fn") or ""):
                ctx.violation("short:%s" % p, "%s uses %s, which may transfer only a part, and can report success" % (p, q), g.span(nid))
            vals = [("err", ("v", RESULT, ERR, ()))]
            if re.match(r"core::result::Result<core::option::Option<", rty):
                vals.append(("absent", ("v", RESULT, 0, (("v", OPTION, 0, ()),))))
            for kind, v in vals:
                ctx.count("failures_followed")
                w = W(g, failed(prog, p), setters)
                env = {}
                w.set_place(env, fr, d, v)
                w.run([(nid, env, None, "after")])
                if w.exceeded:
                    ctx.violation("undecided:%s:%s" % (p, q), "too many paths after %s in %s" % (q, p), g.span(nid))
                bad = [(r, st) for r, st in w.out if r != "fail"]
                if not bad:
                    if len(ctx.samples) < 12:
                        ctx.sample("%s: %s %s -> reports failure" % (p, q, kind))
                    continue
                why = tolerated(prog, p, q, kind == "absent", g, fr)
                if why:
                    ctx.count("tolerated_by_design")
                    continue
                ctx.violation("%s:%s:%s" % (kind, p, q), "when %s %s, %s can still report success" % (q, "fails" if kind == "err" else "finds no such file", p), g.span(nid), w.trail(bad[0][1]))
    import c09
    shared(ctx, c09.outputs, ("unfilled:", "undecided:"))
    ctx.floor("exported_functions", 12)
    ctx.floor("failures_followed", 12)
    ctx.floor("success_returns", 8)
