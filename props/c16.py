"""C16: the header describes the archive: what the builder records at every header position is what the reader takes from there, and where it points the table is."""
from stream import *
from terms import add, mklin
from mir import OPTION

RULE = ("Path-sensitive symbolic trace of everything ArchiveBuilder::build writes to the archive stream, and of everything MpqHeader::read reads.  On every successful path and for each format version the header bytes written "
        "must be exactly those of the MPQ format (offset, width, little endian): constants, version, block size; a table's position is the stream position taken directly before that table's first byte is written (low 32, "
        "high 16 or full 64 bits); a count is the number of entries of the vector the table was serialised from; the V4 sizes are the lengths of the bytes written; the archive size is the position after the last write; "
        "data starts at the header size.  On every successful path of MpqHeader::read each field comes from its own offset with its own width, and exists exactly in the versions that have it.  The accessors combine low "
        "and high parts, and every table is loaded from archive offset + recorded position, with the recorded count.")
MAGIC = 0x1A51504D
HS = (32, 44, 68, 208)
#        offset: (width, field, first version)
FIELDS = {4: (4, "header_size", 0), 8: (4, "archive_size", 0), 14: (2, "block_size", 0), 16: (4, "hash_table_pos", 0), 20: (4, "block_table_pos", 0), 24: (4, "hash_table_size", 0), 28: (4, "block_table_size", 0),
          32: (8, "hi_block_table_pos", 1), 40: (2, "hash_table_pos_hi", 1), 42: (2, "block_table_pos_hi", 1), 44: (8, "archive_size_64", 2), 52: (8, "bet_table_pos", 2), 60: (8, "het_table_pos", 2)}
V4F = {68: (8, "hash_table_size_64"), 76: (8, "block_table_size_64"), 84: (8, "hi_block_table_size_64"), 92: (8, "het_table_size_64"), 100: (8, "bet_table_size_64"), 108: (4, "raw_chunk_size"), 112: (16, "md5_block_table"),
       128: (16, "md5_hash_table"), 144: (16, "md5_hi_block_table"), 160: (16, "md5_bet_table"), 176: (16, "md5_het_table"), 192: (16, "md5_mpq_header")}
READ = "mopaq::header::MpqHeader::read"


# ---------------------------------------------------------------- reader
class R(PathEsp):
    max_states = 200000
    skip_err = True

    def __init__(self, g):
        super().__init__(g)
        self.sites = {s.node: s for s in self.I.sites()}
        self.rets = []

    def relevant(self, c):
        return any(x.op in ("discr", "eq", "lt") for x in subterms(c))

    def call(self, env, cl, node, fr, t, args, p, k, ust):
        if p.endswith("::read_exact") and node.id in self.sites:
            off = cl[0]
            w = width(self.g, self.I, self.sites[node.id])
            return [(None, (off + w if off is not None and w is not None else None, cl[1] + ((node.id, off, w),)))]
        if p.endswith(("::seek", "::read", "::read_to_end", "::seek_relative")):
            return [(None, (None, cl[1]))]
        return None

    def on_return(self, env, ust, node, rv):
        if rv is None or rv[2] == OK:
            self.rets.append((ust, node.id, self.cur))


def source(t, reads):
    """which read a value is: (offset, width, little endian?)"""
    t = strip(t)
    le = None
    if t.op == "pure" and t.a[0].endswith(("from_le_bytes", "from_le")):
        le = True
        t = strip(t.a[1][0])
    elif t.op == "from_le_bytes":
        le = True
        t = strip(t.a[0])
    if t.op == "out" and str(t.a[2]).endswith("::read_exact") and t.a[0] in reads:
        return reads[t.a[0]] + (le,)
    return None


def strip(t):
    while t.op in ("&", "*"):
        t = t.a[0]
    return t


def reader(ctx):
    prog = ctx.prog
    if not ctx.need(READ):
        return
    sp = prog.fns[READ]["span"]
    g = Graph(prog, READ, inline=lambda q, fr: q.startswith("mopaq::"))
    ctx.functions |= {fr.path for fr in g.frames}
    e = R(g)
    e.start((0, ()))
    if e.exceeded:
        ctx.violation("undecided", "too many paths in MpqHeader::read", sp)
        return
    seen = set()
    names = fields(prog, HDR)
    for ust, nid, cur in e.rets:
        reads = {n: (o, w) for n, o, w in ust[2][1][1]}
        st = e.I.at_term(nid)
        t = e.value(ust, e.I.read(st, (("L", g.root.id, 0), ())))
        h = e.value(ust, e.I.proj(mk("dc", t, OK), ("f", 0, "0")))
        get = lambda n: e.value(ust, e.I.proj(h, ("f", names.index(n), "MpqHeader." + n)))
        fv = get("format_version")
        if fv.op != "agg" or fv.a[2] is None:
            ctx.violation("reader", "MpqHeader::read succeeds on a path whose format version the analysis cannot tell", sp, e.trail(cur))
            continue
        v = fv.a[2]
        seen.add(v)
        ctx.count("header_read_paths")
        raw = {o: n for n, (o, w) in reads.items()}
        vr = [c for c, pol in ust[0] if pol and c.op == "eq" and any(is_c(x, v) for x in c.a) and any(source(x, reads) == (12, 2, True) for x in c.a)]
        if not vr:
            ctx.violation("reader:version", "format version %d is not chosen by the two bytes at offset 12 of the header" % (v + 1), sp, e.trail(cur))
        sig = [c for c, pol in ust[0] if pol and c.op == "eq" and any(is_c(x, MAGIC) for x in c.a) and any(source(x, reads) == (0, 4, True) for x in c.a)]
        if not sig:
            ctx.violation("reader:magic", "MpqHeader::read accepts a header without its signature", sp, e.trail(cur))
        for off, (w, n, first) in FIELDS.items():
            val = get(n)
            ctx.count("header_fields_read")
            if first:
                if v < first:
                    if not (val.op == "agg" and val.a[1] == OPTION and val.a[2] == 0):
                        ctx.violation("reader:%s" % n, "MpqHeader::read gives version %d a %s, which its header does not have" % (v + 1, n), sp, e.trail(cur))
                    continue
                if not (val.op == "agg" and val.a[1] == OPTION and val.a[2] == 1):
                    ctx.violation("reader:%s" % n, "MpqHeader::read gives version %d no %s" % (v + 1, n), sp, e.trail(cur))
                    continue
                val = val.a[3][0]
            s = source(val, reads)
            if s != (off, w, True):
                ctx.violation("reader:%s" % n, "in version %d, MpqHeader::read takes %s from %s instead of %d bytes at offset %d" % (v + 1, n, place(s), w, off), sp, e.trail(cur))
        d = get("v4_data")
        if v < 3:
            if not (d.op == "agg" and d.a[2] == 0):
                ctx.violation("reader:v4_data", "MpqHeader::read gives version %d V4 data" % (v + 1), sp, e.trail(cur))
            continue
        if not (d.op == "agg" and d.a[2] == 1):
            ctx.violation("reader:v4_data", "MpqHeader::read can leave out the V4 data of a version 4 header", sp, e.trail(cur))
            continue
        n4 = fields(prog, V4)
        for off, (w, n) in V4F.items():
            val = e.value(ust, e.I.proj(d.a[3][0], ("f", n4.index(n), "MpqHeaderV4Data." + n)))
            ctx.count("header_fields_read")
            s = source(val, reads)
            if s is None or s[:2] != (off, w) or s[2] is None and w != 16:
                ctx.violation("reader:%s" % n, "MpqHeader::read takes %s from %s instead of %d bytes at offset %d" % (n, place(s), w, off), sp, e.trail(cur))
    for v in range(4):
        if v not in seen:
            ctx.violation("reader:version", "MpqHeader::read never accepts format version %d" % (v + 1), sp)


def place(s):
    return "elsewhere" if s is None else "%s bytes at offset %s" % (s[1], s[0]) + ("" if s[2] else " (not little endian)")


# ---------------------------------------------------------------- accessors
def accessors(ctx):
    prog = ctx.prog
    for fn, lo, hi in (("get_hash_table_pos", "hash_table_pos", "hash_table_pos_hi"), ("get_block_table_pos", "block_table_pos", "block_table_pos_hi"), ("get_archive_size", "archive_size", "archive_size_64")):
        f = "mopaq::header::MpqHeader::" + fn
        if f not in prog.fns:
            continue
        g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::"))
        e = PathEsp(g)
        e.relevant = lambda c: True
        rets = []
        e.on_return = lambda env, ust, node, rv, e=e: rets.append((ust, e.value(ust, e.I.read(e.I.at_term(node.id), (("L", g.root.id, 0), ())))))
        e.start(())
        ctx.functions.add(f)
        for ust, t in rets:
            ctx.count("accessor_paths")
            nm = lambda x: {str(y.a[1]).split(".")[-1] for y in subterms(x) if y.op == "f"}
            ok = parts(t, lo, hi)
            has_hi = any(c.op == "eq" and hi in nm(c) and (any(is_c(x, 1) for x in c.a)) == pol for c, pol in ust[0])
            if ok is None and t.op == "pure" and t.a[0].endswith("unwrap_or"):
                ok = has_hi = True
                if not (nm(t.a[1][0]) == {hi} and strip_cast(t.a[1][1]).op == "f" and nm(t.a[1][1]) == {lo}):
                    ok = None
            if ok is None or ok != has_hi:
                ctx.violation("accessor:%s" % fn, "%s does not combine %s with %s" % (fn, lo, hi), prog.fns[f]["span"])


def strip_cast(t):
    while t.op in ("cast", "&", "*"):
        t = t.a[-1]
    return t


def is_field(t, n, payload=False):
    t = strip_cast(t)
    if payload:
        if t.op == "f" and t.a[0].op == "dc" and t.a[0].a[1] == 1:
            t = strip_cast(t.a[0].a[0])
        else:
            return False
    return t.op == "f" and str(t.a[1]).split(".")[-1] == n


def parts(t, lo, hi):
    """False: just the low part; True: hi << 32 | lo, or the 64-bit field itself; None: neither"""
    t0 = strip_cast(t)
    if is_field(t0, lo):
        return False
    if is_field(t0, hi, True) and hi.endswith("_64"):
        return True
    xs = None
    if t0.op in ("or", "xor"):
        xs = list(t0.a)
    elif t0.op == "lin" and t0.a[0] == 0:
        xs = [x if k == 1 else mk("shl", x, C(k.bit_length() - 1)) if k & (k - 1) == 0 else None for x, k in t0.a[1]]
    if xs and len(xs) == 2 and None not in xs:
        for a, b in (xs, xs[::-1]):
            if a.op == "shl" and is_c(a.a[1], 32) and is_field(a.a[0], hi, True) and is_field(b, lo):
                return True
            if a.op == "lin" and a.a[0] == 0 and len(a.a[1]) == 1 and a.a[1][0][1] == 1 << 32 and is_field(a.a[1][0][0], hi, True) and is_field(b, lo):
                return True
    return None


# ---------------------------------------------------------------- loads
LOADS = {"HashTable": ("hash_table_pos", "hash_table_size"), "BlockTable": ("block_table_pos", "block_table_size"), "HiBlockTable": ("hi_block_table_pos", "block_table_size")}
EXT = {"HetTable": ("het_table_pos", "het"), "BetTable": ("bet_table_pos", "bet")}


def loads(ctx):
    prog = ctx.prog
    targets = {"mopaq::tables::%s::%s::read" % (m, t): t for t in list(LOADS) + list(EXT) for m in ("hash", "block", "het", "bet", "hi_block")}
    targets = {f: t for f, t in targets.items() if f in prog.fns}
    cg = prog.callgraph()[0]
    callers = sorted(c for c in prog.fns if c.startswith(("mopaq::", "storm")) and any(q in targets for q, _, _ in cg[c]))
    for c in callers:
        if "::tests::" in c or c in targets:
            continue
        g = Graph(prog, c, inline=lambda q, fr: q.startswith(c + "::"))
        I = Interp(g)
        ctx.functions.add(c)
        for s in I.sites():
            if s.fn not in targets:
                continue
            t = targets[s.fn]
            ctx.count("table_loads")
            pos, cnt = (LOADS.get(t) or EXT[t])
            o = invariant_value(I, s.vals[1])
            nm = lambda x: {str(y.a[1]).split(".")[-1] for y in allterms(I, x) if y.op == "f" and "." in str(y.a[1])}
            sp = g.nodes[s.node].term[2].get("sp") or prog.fns[c]["span"]
            off = [(x, k) for x, k in o.a[1] if is_field(x, "archive_offset")] if o.op == "lin" and o.a[0] == 0 else []
            rest = [(x, k) for x, k in o.a[1] if not is_field(x, "archive_offset")] if o.op == "lin" else []
            good = off and off[0][1] == 1 and rest and all(k == 1 for _, k in rest)
            if good:
                good = len(rest) == 1 and position(I, rest[0][0], pos)
            if not good:
                ctx.violation("load:%s" % t, "%s is not loaded from archive_offset + %s" % (t, pos), sp)
            z = strip_cast(invariant_value(I, s.vals[2]))
            if t in LOADS:
                if not is_field(z, cnt):
                    ctx.violation("load:%s" % t, "%s is not loaded with %s entries" % (t, cnt), sp)
            else:
                bad = {x for x in nm(z) if x.endswith("_size_64")} - {cnt + "_table_size_64"}
                calls = {x.a[0].rsplit("::", 1)[-1] for x in allterms(I, z) if x.op == "call"}
                if bad or not (cnt + "_table_size_64" in nm(z) or calls):
                    ctx.violation("load:%s" % t, "%s is loaded with the size of another table" % t, sp)


def allterms(I, t):
    seen, st, out = set(), [t], []
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            out.append(x)
            if x.op == "phi" and x in I.phi_in:
                st += list(I.phi_in[x].values())
            else:
                st += x.a
    return out


def position(I, t, pos):
    t = strip_cast(t)
    hi = pos + "_hi"
    if t.op in ("call", "pure") and t.a[0].endswith("::get_" + pos):
        return True
    if t.op == "phi" and t in I.phi_in:
        ls = [strip_cast(I.simp(v)) for v in I.phi_in[t].values()]
        return all(parts(v, pos, hi) is not None for v in ls) and any(parts(v, pos, hi) for v in ls)
    return is_field(t, pos, True) or parts(t, pos, hi) is not None and pos not in ("hash_table_pos", "block_table_pos")


# ---------------------------------------------------------------- writer
def versions(ctx, facts):
    """format versions (indices) compatible with a path"""
    from terms import Intervals
    vs = set(range(4))
    for c, pol in facts:
        if c.op in ("eq", "lt"):
            d = [x for x in c.a if x.op == "discr" and any(y.op == "f" and str(y.a[1]).endswith("ArchiveBuilder.version") for y in subterms(x))]
            k = [x for x in c.a if x.op == "c"]
            if d and k and d[0].a[0].op == "f":
                n = k[0].a[0]
                vs = {v for v in vs if ((v == n) if c.op == "eq" else (v < n) if c.a[0] is d[0] else (n < v)) == pol}
    return vs


def le_value(t):
    if t.op == "to_le_bytes":
        return t.a[0]
    if t.op == "pure" and t.a[0].endswith("to_le_bytes"):
        return t.a[1][0]
    return None


class Writer:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.g, self.I, self.ws, self.enc = build_model(ctx)
        self.sp = self.prog.fns[B + "::build"]["span"]
        self.e = Trace(self.g, self.I, self.ws)
        self.e.start(frozenset())
        self.tables = {}
        self.done = set()

    def number(self, t, at):
        t = strip_cast(at(t))
        if t.op == "len":
            ls = vec_lens(self.I, t.a[0])
            if len(ls) == 1 and None not in ls:
                t = strip_cast(at(ls.pop()))
        return t

    def table(self, w):
        if w not in self.tables:
            self.tables[w] = Table(self.I, self.g, self.e.sites, self.enc, self.e.sites[w].vals[1])
        return self.tables[w]

    def paths(self):
        """-> (versions, path key, stream state, resolver) for every successful path and stream with a header"""
        for ust, cur in self.e.rets:
            vs = versions(self.ctx, ust[0])
            phis = ust[2][0]
            at = lambda t, phis=phis: invariant_value(self.I, self.e.at(phis, t))
            n = 0
            for root, st in ust[2][1]:
                if st[3]:
                    n += 1
                    yield vs, cur, st, at
                    self.copied(root, ust[2][1], cur)
            if n != 1:
                yield vs, cur, None, at

    def copied(self, root, streams, cur):
        """an archive assembled in memory reaches the file as a whole"""
        if not any(r.op == "call" and r.a[0].endswith("Cursor::<T>::new") or "cursor::Cursor" in str(r.a[0]) for r in root):
            return
        ok = False
        for other, st in streams:
            for p, n in st[1]:
                if other is not root and p == "raw":
                    v = self.I.simp(self.e.sites[n].vals[1])
                    x = deref(v)
                    if x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("get_ref", "into_inner") or x.op == "pure" and x.a[0].rsplit("::", 1)[-1] in ("get_ref", "into_inner"):
                        ar = x.a[2] if x.op == "call" else x.a[1]
                        ok |= roots(self.I, ar[0]) == root
        self.ctx.count("archives_copied")
        if not ok:
            self.ctx.violation("writer:copy", "an archive assembled in memory is not written to the file as a whole", self.sp, self.e.trail(cur))

    def header(self, hdr, at):
        """offset -> (width, value) ; the last write wins"""
        out = {}
        for h in hdr:
            if h[0] == "?" or h[1] is None:
                if len(h) > 3:
                    b, evs = unroll(self.I, h[3])
                    if evs:
                        off = h[0]
                        for n, v in evs:
                            w = width(self.g, self.I, self.e.sites[n])
                            if w is None:
                                return None
                            out[off] = (w, at(deref(v)))
                            off += w
                        continue
                return None
            out[h[0]] = (h[1], at(h[3]))
        return out


def pos_node(t):
    """the stream_position call a value is the result of"""
    t = strip_cast(t)
    if t.op == "f" and t.a[0].op == "dc" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0].endswith("::stream_position"):
        return t.a[0].a[0].a[1]
    if t.op == "pure" and t.a[0].rsplit("::", 1)[-1] in ("unwrap", "expect", "unwrap_or"):
        return pos_node(t.a[1][0])
    return None


TABLES = {"hash": (16, 40, 24, 68), "block": (20, 42, 28, 76), "hi_block": (32, None, None, 84), "bet": (52, None, None, 100), "het": (60, None, None, 92)}
ENTRY = {"hash": 16, "block": 16, "hi_block": 2}


def check_path(ctx, w, vs, cur, st, at):
    e = w.e
    if st is None:
        ctx.violation("writer", "build can succeed without writing exactly one header", w.sp, e.trail(cur))
        return
    ps, pairs, off, hdr, start, ends = st
    h = w.header(hdr, at)

    def bad(key, msg):
        ctx.violation("writer:%s" % key, msg, w.sp, e.trail(cur))
    if h is None:
        bad("layout", "the header is written with bytes or at an offset the analysis cannot place")
        return
    for v in sorted(vs):
        key = (v, st, frozenset((o, x) for o, (_, x) in h.items()))
        if key in w.done:
            continue
        w.done.add(key)
        ctx.count("header_write_paths")
        rows = {0: 4, 12: 2}
        rows.update({o: r[0] for o, r in FIELDS.items() if r[2] <= v})
        if v == 3:
            rows.update({o: r[0] for o, r in V4F.items()})
        got = {o: x[0] for o, x in h.items()}
        if got != rows:
            miss = sorted(set(rows.items()) ^ set(got.items()))
            bad("layout", "version %d header is not laid out as the format says (first difference at offset %s)" % (v + 1, miss[0][0]))
            continue
        if start is None or start[0] != "data" or start[1] != HS[v]:
            bad("start", "in version %d the first file does not start directly behind the %d byte header" % (v + 1, HS[v]))
        val = {}
        for o, (wd, x) in h.items():
            if wd == 16:
                val[o] = x
                continue
            y = le_value(x)
            if y is None:
                bad("layout", "the bytes at header offset %d are not a little endian number" % o)
                y = x
            val[o] = y
            ctx.count("header_fields_written")
        if not is_c(val[0], MAGIC):
            bad("magic", "the header does not begin with the MPQ signature")
        if not is_c(val[4], HS[v]):
            bad("header_size", "version %d header does not record its size %d" % (v + 1, HS[v]))
        x = strip_cast(val[12])
        if not (is_c(x, v) or x.op == "discr" and is_field(x.a[0], "version")):
            bad("version", "the header of a version %d archive records another version" % (v + 1))
        if not is_field(val[14], "block_size"):
            bad("block_size", "the header does not record the block size")
        for o in (8, 44):
            if o not in val:
                continue
            x = strip_cast(val[o])
            if o == 8 and x.op in ("min", "pure"):
                xs = x.a if x.op == "min" else x.a[1]
                cs = [y for y in xs if is_c(y)]
                xs = [y for y in xs if not is_c(y)]
                if len(xs) == 1 and cs and cs[0].a[0] >= 0xFFFFFFFF and (x.op == "min" or x.a[0].endswith("::min")):
                    x = strip_cast(xs[0])
            n = pos_node(x)
            if n is None or not ends or n not in ends:
                bad("archive_size", "the archive size recorded at offset %d is not the position after the last table" % o)
        wr = {}
        for name, (lo, hi, cnt, sz) in TABLES.items():
            if lo not in val:
                continue
            x = val[lo]
            if name in ("hi_block", "bet", "het") and is_c(x, 0):
                if any(w.table(q).kind == name for p_, q in pairs if q in e.sites and e.sites[q].fn not in w.ws):
                    bad(name, "a %s table is written but the header does not say where" % name)
                continue
            n = pos_node(x)
            q = [q for p_, q in pairs if p_ == n and e.sites[q].fn not in w.ws]
            kinds = {w.table(y).kind for y in q}
            ctx.count("table_positions")
            if n is None or kinds != {name}:
                bad(name, "the %s table position in the header is not where the %s table is written" % (name, name))
                continue
            wr[name] = q[0]
            if hi is not None and hi in val:
                y = strip_cast(val[hi])
                if not (y.op == "shr" and is_c(y.a[1], 32) and pos_node(y.a[0]) == n):
                    bad(name, "the high part of the %s table position is not that of its position" % name)
            t = w.table(q[0])
            if cnt is not None:
                if t.n is None or t.size != ENTRY[name]:
                    bad(name, "the analysis cannot tell how many entries the %s table has" % name)
                elif w.number(val[cnt], at) is not w.number(t.n, at):
                    bad(name, "the number of %s table entries in the header is not that of the table written" % name)
            if sz in val:
                ctx.count("table_sizes")
                if name in ENTRY:
                    x, k = scaled(val[sz], ENTRY[name])
                    if t.n is None or not k or w.number(x, at) is not w.number(t.n, at):
                        bad(name, "the size of the %s table in the V4 header is not that of the table written" % name)
                else:
                    ln = w.I.len_of(deref(at(e.sites[q[0]].vals[1])))
                    if not same_len(w.I, val[sz], ln, at):
                        bad(name, "the size of the %s table in the V4 header is not that of the table written" % name)


def scaled(t, k):
    """t = k * x  -> (x, True)"""
    t = strip_cast(t)
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == k:
        return t.a[1][0][0], True
    if k > 1 and t.op == "shl" and is_c(t.a[1], k.bit_length() - 1):
        return t.a[0], True
    return t, False


def same_len(I, a, b, at):
    a, b = strip_cast(a), strip_cast(b)
    return a is b or at(a) is at(b)


def writer(ctx):
    w = ctx.__dict__.setdefault("_writer", None) or Writer(ctx)
    if w.e.exceeded:
        ctx.violation("undecided", "too many paths in build", w.sp)
        return
    for vs, cur, st, at in w.paths():
        check_path(ctx, w, vs, cur, st, at)
    # what was assembled in memory reaches the file as a whole
    return w


def run(ctx):
    reader(ctx)
    accessors(ctx)
    loads(ctx)
    writer(ctx)
    ctx.floor("header_read_paths", 4)
    ctx.floor("header_write_paths", 4)
    ctx.floor("table_positions", 5)
    ctx.floor("table_sizes", 2)
    ctx.floor("table_loads", 3)
    ctx.floor("accessor_paths", 3)
