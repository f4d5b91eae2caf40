import re
from common import *
from filefmt import *
from buildmodel import build_model, aggs, fields
from c17 import bare
import c17

RULE = ("Term dataflow and path-sensitive branch facts over the builder. Where a block entry is built for a stored file, its size and stored size come from a checked conversion (u32::try_from whose failure is returned) or are bounded "
        "by a comparison on that path; a plain narrowing cast is reported.  The position may be narrowed only to its low 32 bits, with the high part stored beside it (rule shared with C17).  Every path on which a version 1 archive, "
        "which has no high parts, is finished successfully has compared the final position with the 32 bit limit.")

W = "mopaq::builder::ArchiveBuilder::write_archive"
LIM = (0xFFFFFFFF, 0x100000000)


def bounded(I, st, t):
    for c, pol in I.expand(st.facts):
        if c.op == "lt":
            if bare(c.a[0]) is t and is_c(c.a[1]) and c.a[1].a[0] <= LIM[1] and pol or bare(c.a[1]) is t and is_c(c.a[0]) and c.a[0].a[0] <= LIM[0] and not pol:
                return True
    return False


class V1(FactEsp):
    max_states = 200000

    def __init__(self, g):
        super().__init__(g)
        self.rets = []

    def relevant(self, c):
        if c.op not in ("eq", "lt"):
            return False
        if any(is_c(x, LIM[0]) or is_c(x, LIM[1]) for x in c.a):
            return True
        if conv(c) is not None:
            return True
        return any(bare(x).op == "discr" and "ArchiveBuilder.version" in names(bare(x)) and not any(y.op == "call" for y in subterms(x)) or "ArchiveBuilder.version" in names(x) and x.op in ("f", "*") for x in c.a)

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust[0], self.cur))


def names(t):
    return " ".join(str(x.a[1]) for x in subterms(t) if x.op == "f" and len(x.a) > 1)


def version(facts):
    """range of version indices (0 is V1)"""
    lo, hi = 0, 3
    for c, p in facts:
        xs = list(c.a)
        if "ArchiveBuilder.version" not in names(c):
            continue
        k = [x.a[0] for x in xs if is_c(x)]
        if not k:
            continue
        k = k[0]
        if c.op == "eq":
            if p:
                lo = hi = k
            elif k == lo:
                lo += 1
        elif is_c(xs[1]):           # v < k
            if p:
                hi = min(hi, k - 1)
            else:
                lo = max(lo, k)
        else:                       # k < v
            if p:
                lo = max(lo, k + 1)
            else:
                hi = min(hi, k)
    return lo, hi


def conv(c):
    """eq(k, discr(checked conversion)) -> the k that means success"""
    if c.op == "eq":
        for x, y in (c.a, c.a[::-1]):
            y = bare(y)
            if is_c(x) and y.op == "discr" and bare(y.a[0]).op in ("call", "pure") and re.search(r"int_try$|::try_(from|into)$|checked", str(bare(y.a[0]).a[0])):
                return (x.a[0] == OK)
    return None


def limited(facts):
    for c, p in facts:
        k = conv(c)
        if k is not None and k == p:
            return True
        if c.op == "lt":
            a, b = c.a
            if is_c(a) and a.a[0] == LIM[0] and not p or is_c(b) and b.a[0] == LIM[1] and p or is_c(b) and b.a[0] == LIM[0] and p:
                return True
    return False


def run(ctx):
    ctx.rule = RULE
    prog = ctx.prog
    if not ctx.need("mopaq::builder::ArchiveBuilder::build"):
        return
    g, I, ws, enc = build_model(ctx)
    adt = "mopaq::tables::block::BlockEntry"
    for nid, fr, t, st, sp in aggs(I, adt):
        d = dict(zip(fields(prog, adt), t.a[3]))
        if all(is_c(v) for v in d.values()):
            continue
        for x in ("compressed_size", "file_size"):
            ctx.count("sizes_recorded")
            v = d[x]
            if v.op == "cast" and v.a[0] == "u32" and not bounded(I, st, bare(v)):
                ctx.violation("truncated:%s" % x, "%s narrows the %s of a file to 32 bits unchecked: %s" % (fr.path, x, show(v)[:80]), sp)
            elif v.op in ("and", "rem", "min", "wrapping"):
                ctx.violation("truncated:%s" % x, "%s records %s as %s" % (fr.path, show(v)[:80], x), sp)
    shared(ctx, c17.writer, ("hi-entry", "skipped:hi", "layout:hi_block"))
    if W in prog.fns:
        def small(q, fr):
            return q.startswith("mopaq::builder") and q not in ws and len(prog.fns[q]["blocks"]) < 30 and "het_bet" not in q
        g2 = Graph(prog, W, inline=small)
        e = V1(g2)
        e.start(0)
        if e.exceeded:
            ctx.violation("undecided:v1", "too many paths in %s" % W, prog.fns[W]["span"])
        for rv, facts, cur in e.rets:
            if rv is None or rv[0] != "v" or rv[2] == ERR:
                continue
            lo, hi = version(facts)
            if lo > hi:
                continue
            ctx.count("archives_finished")
            if lo == 0 and not limited(facts):
                ctx.violation("v1-limit", "%s can finish a version 1 archive without comparing its size with the 32 bit limit" % W, prog.fns[W]["span"], e.trail(cur))
    else:
        ctx.count("v1_undecided")
    ctx.floor("sizes_recorded", 2)
