"""One symbolic evaluation of ArchiveBuilder::build with all of the builder and the table code inlined; storing one file and the cipher stay opaque."""
from filefmt import *

_cache = {}


def build_model(ctx):
    prog = ctx.prog
    if "m" not in _cache:
        ws = set(file_writers(prog))
        enc = encryptors(prog)
        g = Graph(prog, B + "::build", inline=lambda p, fr: p.startswith(("mopaq::builder", "mopaq::tables", "mopaq::header")) and p not in ws and p not in enc)
        _cache["m"] = (g, Interp(g), ws, enc)
    g = _cache["m"][0]
    ctx.functions |= {fr.path for fr in g.frames}
    return _cache["m"]


def aggs(I, adt):
    """(node, frame, term, state, span) of every construction of the struct"""
    for nid, fr, x, st in I.steps():
        v = x.get("v") or {}
        if v.get("r") == "agg" and v.get("adt") == adt:
            yield nid, fr, I.simp(I.rvalue(st, fr, v, x.get("sp"))), st, x.get("sp")


def fields(prog, adt):
    return [f[0] for f in prog.adts[adt]["variants"][0]["fields"]]


def uncast(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def deref(t):
    while t.op in ("&", "*"):
        t = t.a[0]
    return t
