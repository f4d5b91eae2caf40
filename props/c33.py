import re
from common import *
from filefmt import *
from terms import T, lin_parts
import sectors
from sectors import Rounds
from c17 import bare, mk_arg
from c27 import fn_of, args_of, deep

RULE = ("Path-sensitive dataflow and term dataflow over Attributes::parse and Attributes::to_bytes. On every successful path exactly the arrays announced by the flags (1 CRC32, 2 file time, 4 MD5, 8 patch bit) are read, or written, "
        "in that order, with elements of 4, 8, 16 bytes (little-endian) and one bit per block; the loops run once per block of the block table and none is passed over; each attribute reported for block i is element i of "
        "its own array, a patch bit bit i % 8 of byte i / 8.")

A = "mopaq::special_files::attributes::Attributes::"
ORDER = ["crc32", "filetime", "md5", "is_patch"]
FLAG = {"crc32": 1, "filetime": 2, "md5": 4, "is_patch": 8}
SIZE = {4: "crc32", 8: "filetime", 16: "md5"}


class Seq(FactEsp):
    force_loops = True
    max_states = 300000

    def __init__(self, g, I, events):
        self.ev = events
        super().__init__(g, I)
        self.rets = []

    def relevant(self, c):
        return c.op == "eq" and any(bare(x).op == "and" and any(is_c(y) for y in bare(x).a) for x in c.a)

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if node.id in self.ev:
            e = self.ev[node.id]
            if not cl or cl[-1] != e:
                cl = cl + (e,)
            if len(cl) > 8:
                return [(None, "STOP")]
            return [(("v", RESULT, OK, (None,)), cl)] if p.endswith("read_exact") else [(None, cl)]
        return None

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def flag_truth(facts):
    out = {}
    for c, p in facts:
        for x, y in (c.a, c.a[::-1]):
            y = bare(y)
            if is_c(x) and y.op == "and":
                k = [z.a[0] for z in y.a if is_c(z)]
                if k and x.a[0] == 0:
                    out[k[0]] = not p
                elif k and x.a[0] == k[0]:
                    out[k[0]] = p
    return out


def per_bit(n, count=None):
    """n = ceil(count / 8)"""
    a = args_of(n) if n.op in ("call", "pure") else n.a
    if (n.op == "div_ceil" or fn_of(n).endswith("div_ceil")) and len(a) == 2:
        b = bare(a[0])
        return is_c(a[1], 8) and (b is count if count is not None else b.op == "len")
    if n.op == "div" and is_c(n.a[1], 8) or n.op == "shr" and is_c(n.a[1], 3):
        b = bare(n.a[0])
        return b.op == "lin" and b.a[0] == 7
    return False


ODD = ("lin", "div", "rem", "min", "max", "and", "or", "xor", "shr", "shl", "mul", "saturating_sub", "saturating_add", "wrapping_add", "wrapping_sub")


def sequence(ctx, f, g, I, events, verb):
    sp = ctx.prog.fns[f]["span"]
    e = Seq(g, I, events)
    e.start(())
    if e.exceeded:
        ctx.violation("undecided:" + f, "too many paths in %s" % f, sp)
    for rv, ust, cur in e.rets:
        if rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR:
            continue
        ctx.count("paths")
        ft = flag_truth(ust[0])
        seq = [x for x in ust[2] if x in ORDER]
        full = [x for x in ust[2] if x in ORDER or x == "header"]
        if "header" in full[1:]:
            ctx.violation("extra:" + f, "%s %s four more bytes between or after the arrays: %s" % (f, verb, ", ".join(full)), sp, e.trail(cur))
        if seq != [x for x in ORDER if x in seq]:
            ctx.violation("order:" + f, "%s %s the arrays in the order %s" % (f, verb, ", ".join(seq)), sp, e.trail(cur))
        for x in ORDER:
            t = ft.get(FLAG[x])
            if t is None:
                ctx.violation("flag:%s:%s" % (f, x), "%s succeeds without testing the flag %d for %s" % (f, FLAG[x], x), sp, e.trail(cur))
            elif t != (x in seq):
                ctx.violation("flag:%s:%s" % (f, x), "%s: the flag for %s is %s, but the array is %s%s" % (f, x, "set" if t else "clear", "" if x in seq else "not ", {"reads": "read", "writes": "written"}[verb]), sp, e.trail(cur))
    ctx.floor("paths", 4)


def parse(ctx):
    prog = ctx.prog
    f = A + "parse"
    if not ctx.need(f):
        return
    g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::special_files"))
    I = Interp(g)
    ctx.functions |= {fr.path for fr in g.frames}
    count = mk_arg(prog, f, 1, I)
    reads, loops = {}, {}
    for s in I.sites():
        if re.search(r"::read_exact$", s.fn):
            b = bare(s.vals[1])
            n = bare(I.len_of(b))
            nxt, body = sectors.loop_at(I, g, s.node)
            if is_c(n) and n.a[0] in SIZE and body is not None:
                reads[s.node] = SIZE[n.a[0]]
                if nxt is not None:
                    loops.setdefault(nxt.node, (nxt, set()))[1].add(s.node)
            elif is_c(n):
                reads[s.node] = "header" if body is None else "?"
                if body is not None:
                    ctx.violation("width", "%s reads elements of %d bytes; the arrays have 4, 8 and 16" % (f, n.a[0]), g.span(s.node))
            elif body is None:
                if not per_bit(n, count):
                    ctx.violation("width:bits", "%s reads %s bytes of patch bits; expected one bit per block, rounded up" % (f, show(n)[:80]), g.span(s.node))
                reads[s.node] = "is_patch"
    if not {"crc32", "filetime", "md5", "is_patch"} <= set(reads.values()):
        ctx.count("parse_undecided")
        return
    ctx.count("array_reads", len(reads))
    sequence(ctx, f, g, I, reads, "reads")
    ends = {}
    for s in I.sites():
        if s.fn.endswith("::next"):
            ends[s.node] = s
    for n, s in ends.items():
        c = I.simp(I.dv(s.st, s.vals[0]))
        for r in [x for x in subterms(c) if x.op == "agg" and str(x.a[1]).endswith("Range")]:
            ctx.count("block_loops")
            if not is_c(bare(r.a[3][0]), 0) or bare(r.a[3][1]) is not count and bare(r.a[3][1]).op != "len":
                ctx.violation("blocks", "%s runs over %s; expected every block" % (f, show(r)[:80]), g.span(n))
        if any(x.op in ("call", "pure") and re.search(r"::(skip|take|step_by|filter|take_while|skip_while)$", fn_of(x)) for x in subterms(c)):
            ctx.violation("blocks", "%s does not run over every block: %s" % (f, show(c)[:80]), g.span(n))
    for nid, (nxt, adds) in loops.items():
        r = Rounds(g, I, nid, adds)
        r.start("before")
        for k, cur in r.bad.items():
            if k in ("skipped", "twice"):
                ctx.violation("round:" + k, "%s can %s an element of the array in a round" % (f, "leave out" if k == "skipped" else "read twice"), g.span(nid), r.trail(cur))
    refusals(ctx, g, I, f, count)
    # which element ends up where
    names = [x[0] for x in prog.adts["mopaq::special_files::attributes::FileAttributes"]["variants"][0]["fields"]]

    def stored(field, v, sp):
        v = I.simp(v)
        if v.op != "agg" or not str(v.a[1]).endswith("Option") or v.a[2] != 1 or not v.a[3]:
            return
        v = I.simp(v.a[3][0])
        ctx.count("attributes_stored")
        kinds = {reads[x.a[0]] for x in content(I, v) if x.op == "out" and x.a[0] in reads} - {"header"}
        ix = [x for x in subterms(v) if x.op == "idx"]
        src = set()
        for x in ix:
            src |= {reads[y.a[0]] for y in near(I, x.a[0]) if y.op == "out" and y.a[0] in reads and y.a[1] == 1}
        src = src & set(ORDER)
        if src and src != {field}:
            ctx.violation("element:%s" % field, "%s takes %s from the array of %s" % (f, field, ", ".join(sorted(src))), sp)
        for x in ix:
            i = bare(x.a[1])
            if field != "is_patch":
                if i.op in ODD:
                    ctx.violation("element:%s" % field, "%s takes element %s of the %s array for a block" % (f, show(i)[:60], field), sp)
            else:
                if not ((i.op == "div" and is_c(i.a[1], 8) or i.op == "shr" and is_c(i.a[1], 3)) and bare(i.a[0]).op not in ("lin", "div", "rem")):
                    ctx.violation("element:%s" % field, "%s takes byte %s of the patch bits for a block; expected i / 8" % (f, show(i)[:60]), sp)
                else:
                    base = bare(i.a[0])
                    bit = False
                    for y in subterms(v):
                        z = None
                        if y.op == "shl" and is_c(y.a[0], 1):
                            z = bare(y.a[1])
                        elif y.op == "shr" and y is not i and any(q is x for q in subterms(y.a[0])):
                            z = bare(y.a[1])
                        if z is not None and (z.op == "rem" and is_c(z.a[1], 8) and bare(z.a[0]) is base or z.op == "and" and any(is_c(q, 7) for q in z.a) and any(bare(q) is base for q in z.a)):
                            bit = True
                    w = bare(v)
                    while w.op == "not":
                        w = bare(w.a[0])
                    if bit and w.op == "eq":
                        for q, z in (w.a, w.a[::-1]):
                            z = bare(z)
                            if is_c(q) and q.a[0] != 0 and z.op == "and" and any(bare(y).op == "shl" for y in z.a):
                                bit = False
                    if not bit:
                        ctx.violation("element:%s:bit" % field, "%s does not take bit i %% 8 of the patch byte: %s" % (f, show(v)[:100]), sp)
    for nid, fr, x, st in I.steps():
        p = x["p"]
        v = x.get("v") or {}
        if len(p) > 1 and p[1]:
            loc = str(I.loc_of(st, fr, p))
            for n in names:
                if "FileAttributes.%s'" % n in loc:
                    stored(n, I.rvalue(st, fr, v, x.get("sp")), x.get("sp"))
        elif v.get("r") == "agg" and str(v.get("adt")).endswith("::FileAttributes"):
            t = I.simp(I.rvalue(st, fr, v, x.get("sp")))
            for n, y in zip(names, t.a[3]):
                stored(n, y, x.get("sp"))
    seen = set()
    for nid in I.instate:
        for lab, _ in g.nodes[nid].succ:
            for c, pol in I.new_facts(nid, lab) or ():
                if c in seen:
                    continue
                seen.add(c)
                k = set()
                for x in subterms(c):
                    if x.op == "idx":
                        k |= {reads[y.a[0]] for y in near(I, x.a[0]) if y.op == "out" and y.a[0] in reads and y.a[1] == 1} & {"crc32", "filetime", "md5"}
                if k:
                    ctx.violation("depends", "%s goes different ways depending on a stored %s: what it reports for a block is not simply the element" % (f, ", ".join(sorted(k))), g.span(nid))
    for s in I.sites():
        if s.fn.endswith("from_be_bytes") or s.fn.endswith("from_ne_bytes"):
            ctx.violation("endian", "%s reads numbers with %s" % (f, s.fn.rsplit("::", 1)[-1]), g.span(s.node))


def near(I, t):
    """a vector's elements: what was pushed"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            work += list(I.phi_in.get(x, {}).values())
        elif x.op == "out":
            continue
        else:
            for y in x.a:
                work += list(y) if isinstance(y, tuple) else [y]
    return seen


def to_bytes(ctx):
    prog = ctx.prog
    f = A + "to_bytes"
    if not ctx.need(f):
        return
    g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::special_files"))
    I = Interp(g)
    ctx.functions |= {fr.path for fr in g.frames}
    ev, loops, head, later = {}, {}, [], []
    patch = {}
    for nid, fr, x, st in I.steps():
        v = x.get("v") or {}
        if len(x["p"]) > 1 and x["p"][1]:
            t = I.simp(I.rvalue(st, fr, v, x.get("sp")))
            if any(y.op == "shl" for y in subterms(t)):
                patch[nid] = (I.loc_of(st, fr, x["p"]), t, x.get("sp"))
    for s in I.sites():
        if s.fn.endswith("to_be_bytes") or s.fn.endswith("to_ne_bytes"):
            ctx.violation("endian", "%s writes numbers with %s" % (f, s.fn.rsplit("::", 1)[-1]), g.span(s.node))
        if re.search(r"::(extend_from_slice|write_all|extend|append)$", s.fn):
            v = I.dv(s.st, s.vals[1])
            d = " ".join(deep(x) for x in content(I, v) | {v})
            nxt, body = sectors.loop_at(I, g, s.node)
            k = [n for n in ORDER if "FileAttributes.%s" % n in d]
            if body is not None and len(k) > 1:
                ctx.violation("element:mixed", "%s writes %s in one element" % (f, " and ".join(k)), g.span(s.node))
            elif body is not None and not k and nxt is not None:
                later.append((s, nxt, bare(I.len_of(bare(v)))))
            elif body is not None and len(k) == 1 and k[0] != "is_patch":
                ev[s.node] = k[0]
                if nxt is not None:
                    loops.setdefault(nxt.node, (nxt, set()))[1].add(s.node)
            elif body is None and ("Attributes.version" in d or "AttributeFlags" in d or "Attributes.flags" in d) and not k and "file_attributes" not in d:
                ev[s.node] = "header"
                head.append("version" if "Attributes.version" in d else "flags")
            elif body is None:
                ev[s.node] = "is_patch"
                n = bare(I.len_of(bare(v)))
                for _ in range(3):
                    if n.op == "len" and bare(n.a[0]).op == "phi":
                        p = bare(n.a[0])
                        ns = [bare(I.len_of(bare(y))) for y in I.phi_in.get(p, {}).values() if not any(z is p for z in subterms(y))]
                        n = ns[0] if ns else n
                if not (n.op == "len" and bare(n.a[0]).op == "phi") and n.op in ("lin", "div", "div_ceil", "len", "max", "min", "mul") and not per_bit(n):
                    ctx.violation("width:bits", "%s writes %s bytes of patch bits; expected one bit per block, rounded up" % (f, show(n)[:80]), g.span(s.node))
    for s, nxt, n in later:
        k = {ev[x] for x in loops.get(nxt.node, (0, ()))[1]}
        if len(k) == 1 and is_c(n) and SIZE.get(n.a[0]) in k:
            ev[s.node] = k.pop()
            loops[nxt.node][1].add(s.node)
    if not set(ORDER) <= set(ev.values()):
        ctx.count("write_undecided")
        return
    ctx.count("array_writes", len(ev))
    if head and head != ["version", "flags"]:
        ctx.violation("header", "%s writes the header as %s" % (f, head))
    sequence(ctx, f, g, I, ev, "writes")
    for nid, (nxt, adds) in loops.items():
        c = I.simp(I.dv(nxt.st, nxt.vals[0]))
        if any(x.op in ("call", "pure") and re.search(r"::(skip|take|step_by|filter|take_while|skip_while)$", fn_of(x)) for x in subterms(c)):
            ctx.violation("blocks", "%s does not run over every block: %s" % (f, show(c)[:80]), g.span(nid))
        r = Rounds(g, I, nid, adds)
        r.start("before")
        for k, cur in r.bad.items():
            if k in ("skipped", "twice"):
                ctx.violation("round:" + k, "%s can %s an element of the array in a round" % (f, "leave out" if k == "skipped" else "write twice"), g.span(nid), r.trail(cur))
    for nid, (loc, t, sp) in patch.items():
        ctx.count("patch_bits")
        if bare(t).op == "shl":
            ctx.violation("element:is_patch:other", "%s overwrites the other patch bits of the byte" % f, sp)
        ix = [e for e in (loc[1] if isinstance(loc, tuple) and len(loc) > 1 else ()) if isinstance(e, tuple) and e and e[0] == "i"]
        sh = [bare(y.a[1]) for y in subterms(t) if y.op == "shl" and is_c(y.a[0], 1)]
        for z in sh:
            if not (z.op == "rem" and is_c(z.a[1], 8) or z.op == "and" and any(is_c(q, 7) for q in z.a)):
                ctx.violation("element:is_patch:bit", "%s sets bit %s of a patch byte; expected i %% 8" % (f, show(z)[:60]), sp)
        for e in ix:
            i = bare(e[1]) if len(e) > 1 and isinstance(e[1], T) else None
            if i is not None and not (i.op == "div" and is_c(i.a[1], 8) or i.op == "shr" and is_c(i.a[1], 3)):
                ctx.violation("element:is_patch", "%s sets a bit of patch byte %s; expected i / 8" % (f, show(i)[:60]), sp)


def lookup(ctx):
    """the attributes reported for block i are entry i"""
    prog = ctx.prog
    f = A + "get_file_attributes"
    if not ctx.need(f):
        return
    g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::special_files"))
    I = Interp(g)
    ctx.functions |= {fr.path for fr in g.frames}
    i = mk_arg(prog, f, 1, I)
    for s in I.sites():
        if re.search(r"::(get|get_unchecked|nth|index)$", s.fn):
            ctx.count("lookups")
            if len(s.vals) > 1 and bare(I.dv(s.st, s.vals[1])) is not i:
                ctx.violation("lookup", "%s takes entry %s for a block; expected its own" % (f, show(bare(I.dv(s.st, s.vals[1])))[:60]), g.span(s.node))
        elif re.search(r"::(skip|step_by|filter|take|rev|skip_while|take_while)$", s.fn):
            ctx.violation("lookup", "%s does not report the entry as it is: %s" % (f, s.fn), g.span(s.node))
    for nid in I.instate:
        for lab, _ in g.nodes[nid].succ:
            for c, pol in I.new_facts(nid, lab) or ():
                if "FileAttributes." in deep(c):
                    ctx.violation("lookup", "%s reports an entry or not depending on what is in it" % f, g.span(nid))


def refusals(ctx, g, I, f, count):
    """a file is refused as too short only when it is shorter than its arrays"""
    seen = set()
    for nid in I.instate:
        for lab, _ in g.nodes[nid].succ:
            for c, pol in I.new_facts(nid, lab) or ():
                if c.op != "lt" or c in seen:
                    continue
                seen.add(c)
                a, b = bare(c.a[0]), bare(c.a[1])
                vs = sectors.alternatives(I, b, cap=64)
                if not (a.op == "len" or fn_of(a).endswith("::len")) or not any(x is count for v in vs for x in subterms(v)):
                    continue
                ctx.count("size_tests")
                for v in vs:
                    v = bare(v)
                    why = size_form(v, count)
                    if why:
                        ctx.violation("refuses", "%s refuses files shorter than %s: %s" % (f, show(v)[:80], why), g.span(nid))


def size_form(v, count):
    """8 + 4n + 8n + 16n + ceil(n/8), with any of the arrays left out"""
    c, d = lin_parts(v)
    if c > 8:
        return "the header has 8 bytes"
    for t, k in d.items():
        t = bare(t)
        if t is count:
            if k > 28 or k % 4:
                return "the elements have 4, 8 and 16 bytes"
        elif per_bit(t, count):
            if k > 1:
                return "there is one bit per block"
        elif t.op == "phi":
            return None
    return None


def run(ctx):
    ctx.rule = RULE
    lookup(ctx)
    parse(ctx)
    to_bytes(ctx)
