"""C17: a name leads to exactly its own file: from the builder's tables through the lookup to the bytes read."""
from c16 import *
from pathesp import PathEsp
from factesp import FactEsp

RULE = ("Writer: every hash entry stored holds hash_string(name, 1), hash_string(name, 2), the locale and the index of one and the same pending file, goes into an unused slot of the probe sequence starting at "
        "hash_string(name, 0) mod size; every block entry (and high part) goes to the index of the pending file that was stored for it; no iteration of those loops completes without its entry.  Tables are "
        "serialised field by field in the layout the readers use.  Reader: from_bytes, read, HashTable::find_file (match only with both hashes and a used slot; absent only after an unused slot or a full round), "
        "Archive::find_file (position, sizes and flags from the block entry the hash entry names, or from the BET entry whose full name hash equals the name's) and the seeks of read_file.")
HE, BE = "mopaq::tables::hash::HashEntry", "mopaq::tables::block::BlockEntry"
HASH = "mopaq::crypto::hash::hash_string"
JENK = "mopaq::crypto::hash::jenkins_hash"
EMPTY, DELETED = 0xFFFFFFFF, 0xFFFFFFFE
LAYOUT = {"hash": ((0, 4, "HashEntry.name_1"), (4, 4, "HashEntry.name_2"), (8, 2, "HashEntry.locale"), (10, 2, "HashEntry.platform"), (12, 4, "HashEntry.block_index")),
          "block": ((0, 4, "BlockEntry.file_pos"), (4, 4, "BlockEntry.compressed_size"), (8, 4, "BlockEntry.file_size"), (12, 4, "BlockEntry.flags"))}


def bare(t):
    while t.op in ("&", "*", "cast"):
        t = t.a[-1] if t.op == "cast" else t.a[0]
    return t


def element(I, loc):
    """(vector, index) a location is an element of"""
    root, path = loc
    for i, e in enumerate(path):
        if e[0] == "i":
            return (root, path[:i]), bare(I.simp(e[1])), path[i + 1:]
    if root[0] == "M":
        return payload_element(I, root[1], path)
    return None


def payload_element(I, t, path=()):
    t = I.simp(t)
    if t.op == "f" and t.a[0].op == "dc":
        c = I.simp(t.a[0].a[0])
        if c.op in ("call", "pure"):
            args = c.a[2] if c.op == "call" else c.a[1]
            if c.a[0].rsplit("::", 1)[-1] in ("get_mut", "get", "index_mut", "get_unchecked_mut") and len(args) == 2:
                return bare(args[0]), bare(I.simp(args[1])), path
    if t.op in ("call", "pure"):
        args = t.a[2] if t.op == "call" else t.a[1]
        if t.a[0].rsplit("::", 1)[-1] in ("index_mut",) and len(args) == 2:
            return bare(args[0]), bare(I.simp(args[1])), path
    return None


def chain_of(I, t):
    """iterator adapters down to the source: (names of adapters, source)"""
    names = []
    while True:
        t = invariant_value(I, t)
        if t.op in ("iter", "&", "*"):
            t = t.a[0]
        elif t.op == "pure" and len(t.a[1]) >= 1 and t.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter", "enumerate", "copied", "cloned", "rev", "skip", "take", "filter", "zip", "step_by", "by_ref"):
            n = t.a[0].rsplit("::", 1)[-1]
            if n not in ("iter", "into_iter", "copied", "cloned", "by_ref"):
                names.append(n)
            t = t.a[1][0]
        elif t.op in ("enumerate", "rev", "skip", "take", "zip", "filter"):
            names.append(t.op)
            t = t.a[0]
        else:
            return names, t


def is_pending(t):
    return any(x.op == "f" and str(x.a[1]).endswith("ArchiveBuilder.pending_files") for x in subterms(t)) or "ArchiveBuilder.pending_files" in show(t)


def pending(I, t):
    """the pending file a term is (a reference to): its index as a term"""
    t = bare(I.simp(t))
    if t.op == "f" and t.a[0].op == "f" and t.a[0].a[0].op == "dc" and t.a[2][1] == 1:       # (i, file) of an enumeration
        nx = I.simp(t.a[0].a[0].a[0])
        if nx.op == "next":
            names, src = chain_of(I, nx.a[1])
            if names == ["enumerate"] and is_pending(src):
                return bare(I.simp(I.proj(t.a[0], ("f", 0))))
            return None
    if t.op == "f" and t.a[0].op == "dc":                                                     # plain iteration: counted by its own loop
        nx = I.simp(t.a[0].a[0])
        if nx.op == "next":
            names, src = chain_of(I, nx.a[1])
            if not names and is_pending(src):
                return mk("count", nx)
        e = payload_element(I, t)
        if e and is_pending(e[0]):
            return e[1]
    if t.op == "idx" and is_pending(t.a[0]):
        return bare(t.a[1])
    return None


def member(I, t, field):
    """PendingFile.field of a pending file -> the file's index"""
    t = bare(I.simp(t))
    while t.op in ("call", "pure") and t.a[0].rsplit("::", 1)[-1] in ("as_str", "deref", "as_ref", "borrow", "to_string", "clone", "to_owned", "into", "from"):
        t = bare((t.a[2] if t.op == "call" else t.a[1])[0])
    if t.op == "f" and str(t.a[1]) == "PendingFile." + field:
        return pending(I, t.a[0])
    return None


def count_index(I, i):
    """an index that is counted along with a loop: same as the loop's own count"""
    return i


def hashed(I, t, kind):
    """hash_string(name, kind) -> name"""
    t = bare(I.simp(t))
    if t.op in ("call", "pure") and t.a[0] == HASH:
        args = t.a[2] if t.op == "call" else t.a[1]
        if is_c(args[1], kind):
            return args[0]
    return None


def modulo(t):
    """x mod n -> (x, n)"""
    t = bare(t)
    if t.op == "and" and len(t.a) == 2:
        for x, m in (t.a, t.a[::-1]):
            m = bare(m)
            if m.op == "lin" and m.a[0] == -1 and len(m.a[1]) == 1 and m.a[1][0][1] == 1:
                return bare(x), bare(m.a[1][0][0])
    if t.op == "rem":
        return bare(t.a[0]), bare(t.a[1])
    return None


def probe(I, i, name_ok, size_ok):
    """the index runs through start, start + 1, ... modulo the size of the table; start = hash_string(name, 0)"""
    def start(x):
        x = bare(I.simp(x))
        m = modulo(x)
        if m and size_ok(m[1]):
            x = m[0]
        n = hashed(I, x, 0)
        return n is not None and name_ok(n)
    i = bare(I.simp(i))
    if i.op == "phi" and i in I.phi_in:
        ok = False
        for v in I.phi_in[i].values():
            v = bare(I.simp(v))
            if v is i:
                continue
            m = modulo(v)
            if not m or not size_ok(m[1]):
                return False
            if m[0].op == "lin" and m[0].a[0] == 1 and len(m[0].a[1]) == 1 and bare(m[0].a[1][0][0]) is i and m[0].a[1][0][1] == 1:
                ok = True
            elif not start(v):
                return False
        return ok
    m = modulo(i)
    if m and size_ok(m[1]) and m[0].op == "lin" and m[0].a[0] == 0 and len(m[0].a[1]) == 2 and all(k == 1 for _, k in m[0].a[1]):
        xs = [bare(x) for x, _ in m[0].a[1]]
        for a, b in (xs, xs[::-1]):
            if start(a) and b.op == "f" and b.a[0].op == "dc" and b.a[0].a[0].op == "next":
                r = invariant_value(I, b.a[0].a[0].a[1])
                if r.op == "agg" and is_c(r.a[3][0], 0) and size_ok(bare(r.a[3][1])):
                    return True
    return False


# ---------------------------------------------------------------- writer
class Done(FactEsp):
    """a loop over the pending files: has this iteration stored its entry?"""
    max_states = 300000

    def __init__(self, g, nxt, stores, kind):
        super().__init__(g)
        self.nxt, self.stores, self.kind = nxt, stores, kind
        self.bad, self.rounds = None, 0

    def relevant(self, c):
        return False

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if id(t) == self.nxt:
            self.rounds += 1
            if cl == 0:
                self.bad = self.bad or self.cur
            return [(None, 0)]
        return None

    def edge(self, env, cl, node, lab, w):
        """no table of high parts: nothing to store; a slot that does not exist: neither"""
        if lab and (lab[0] == "sw" and lab[-1] == 0 or lab[0] == "swelse" and 1 in lab[-1] and 0 not in lab[-1]):
            for s in node.stmts:
                if s[0] == "raw" and (s[2].get("v") or {}).get("r") == "discr":
                    ty = s[2]["v"].get("ty") or ""
                    if "HiBlockTable" in ty or self.kind == "hi" and "&mut u16" in ty:
                        return 1 if self.kind == "hi" else cl
        return cl

    def on_stmt(self, env, ust, node, fr, s, val):
        return (ust[0], ust[1], 1) if id(s) in self.stores else ust


def writer(ctx):
    prog = ctx.prog
    g, I, ws, enc = build_model(ctx)
    sites = {s.node: s for s in I.sites()}
    wsites = {n: s for n, s in sites.items() if s.fn in ws}
    stores = {}
    hash_stores = []
    for nid, fr, x, st in I.steps():
        p = x["p"]
        if len(p) < 2 or not p[1]:
            continue
        loc = I.loc_of(st, fr, p)
        el = element(I, loc)
        if el is None:
            continue
        v = I.simp(I.rvalue(st, fr, x["v"], x.get("sp")))
        vec, i, rest = el
        vtext = str(vec) if isinstance(vec, tuple) else show(vec)
        if v.op == "agg" and v.a[1] in (HE, BE) and not rest:
            vals = dict(zip(fields(prog, v.a[1]), v.a[3]))
            if all(is_c(y) for y in vals.values()):
                continue
            sp = x.get("sp") or prog.fns[fr.path]["span"]
            if v.a[1] == HE:
                ctx.count("hash_entries_stored")
                n1, n2 = hashed(I, vals["name_1"], 1), hashed(I, vals["name_2"], 2)
                if n1 is None or n2 is None:
                    ctx.violation("hash-entry:name", "%s stores a hash entry whose name hashes are not hash_string(name, NAME_A) and (name, NAME_B)" % fr.path, sp)
                    continue
                f1, f2, f3 = member(I, n1, "archive_name"), member(I, n2, "archive_name"), member(I, vals["locale"], "locale")
                bi = bare(I.simp(vals["block_index"]))
                if f1 is None or f1 is not f2 or not same_index(I, g, f1, bi):
                    ctx.violation("hash-entry:block", "%s stores a hash entry whose block index (%s) is not the index of the file it is named after" % (fr.path, show(bi)[:80]), sp)
                if f3 is not f1:
                    ctx.violation("hash-entry:locale", "%s stores a hash entry with the locale of another file or none" % fr.path, sp)
                nx = loop_of(f1)
                if nx is not None:
                    stores.setdefault((nx, "hash"), []).append((nid, fr, id(x)))
                same_name = lambda t, f=f1: member(I, t, "archive_name") is f
                size = lambda t: table_size(I, t)
                if not probe(I, i, same_name, size):
                    ctx.violation("hash-entry:probe", "%s stores a hash entry at %s, not along the probe sequence hash_string(name, TABLE_OFFSET), +1, ... modulo the table size" % (fr.path, show(i)[:80]), sp)
                hash_stores.append((nid, fr, i, sp, st))
            else:
                ctx.count("block_entries_stored")
                calls = [y for y in subterms(vals["flags"]) if y.op == "call" and y.a[0] in ws]
                s = wsites.get(calls[0].a[1]) if calls else None
                f = None
                if s is not None:
                    f = written_file(I, s)
                if f is None or not same_index(I, g, f, i):
                    ctx.violation("block-entry:index", "%s stores a block entry at index %s, which is not the index of the file stored for it" % (fr.path, show(i)[:80]), sp)
                else:
                    nx = loop_of(f)
                    if nx is not None:
                        stores.setdefault((nx, "block"), []).append((nid, fr, id(x)))
        elif "HiBlockTable.entries" in vtext and not rest and not is_c(v):
            sp = x.get("sp") or prog.fns[fr.path]["span"]
            ctx.count("high_parts_stored")
            u = bare(v)
            src = u.a[0] if u.op == "shr" and is_c(u.a[1], 32) else None
            pos = [y for y in subterms(src) if y.op == "call" and "stream_position" in str(y.a[0])] if src is not None else []
            f = None
            for s in wsites.values():
                if pos and any(pos[0] in subterms(I.dv(s.st, a)) or pos[0] in {z for y in subterms(I.dv(s.st, a)) if y.op == "ref" for z in subterms(I.dv(s.st, y))} for a in s.vals):
                    f = written_file(I, s)
            if src is None or len(pos) != 1 or bare(src) is not bare(I.simp(I.proj(mk("dc", pos[0], OK), ("f", 0)))) and bare(src).a[:1] != (mk("dc", pos[0], OK),):
                ctx.violation("hi-entry", "%s stores %s as high part of a file position; expected the position >> 32" % (fr.path, show(v)[:80]), sp)
            elif f is None or not same_index(I, g, f, i):
                ctx.violation("hi-entry:index", "%s stores the high part of a position at an index that is not the file's" % fr.path, sp)
            else:
                nx = loop_of(f)
                if nx is not None:
                    stores.setdefault((nx, "hi"), []).append((nid, fr, id(x)))
    ctx.floor("hash_entries_stored", 1)
    ctx.floor("block_entries_stored", 1)
    ctx.floor("high_parts_stored", 1)
    # unused slots only
    for nid, fr, i, sp, st in hash_stores:
        fs = I.expand(st.facts)
        ok = False
        for c, pol in fs:
            if pol and c.op == "eq" and any(is_c(y, EMPTY) for y in c.a):
                for y in c.a:
                    y = bare(y)
                    if y.op == "f" and str(y.a[1]) == "HashEntry.block_index":
                        e = payload_element(I, bare(y.a[0])) or (y.a[0].op == "idx" and (y.a[0].a[0], bare(y.a[0].a[1]))) or (y.a[0].op == "phi" and isinstance(y.a[0].a[1], tuple) and element(I, y.a[0].a[1]))
                        if e and e[1] is i:
                            ok = True
        ctx.count("slots_checked")
        if not ok:
            ctx.violation("hash-entry:slot", "%s can store a hash entry in a slot that is not known to be unused" % fr.path, sp)
    # every iteration stores its entries
    for (nx, kind), sts in sorted(stores.items(), key=lambda x: (x[0][0], x[0][1])):
        n = g.nodes[nx]
        top = n.term[1]
        via = {fr2.path for _, fr, _ in sts for fr2 in up(fr, top)}
        g2 = Graph(prog, top.path, inline=lambda q, fr: q in via, sub=top.sub)
        e = Done(g2, id(n.term[2]), {x for _, _, x in sts}, kind)
        e.start(None)
        ctx.count("file_loops")
        if e.exceeded or e.rounds < 2:
            ctx.violation("undecided", "the paths through %s could not be followed" % top.path, prog.fns[top.path]["span"])
        if e.bad:
            ctx.violation("skipped:%s" % kind, "%s can pass over a pending file without storing its %s" % (top.path, {"hash": "hash entry", "block": "block entry", "hi": "high position part"}[kind]), g.span(nx), e.trail(e.bad))
    # serialisation
    for n, s in sites.items():
        if s.fn.endswith("::write_all"):
            t = Table(I, g, sites, enc, s.vals[1])
            if t.kind not in LAYOUT and t.kind != "hi_block":
                continue
            ctx.count("tables_serialised")
            if t.kind == "hi_block":
                good = len(t.entry) == 1 and t.entry[0][1] == 2 and le_value(t.entry[0][3]) is not None
                if not good:
                    ctx.violation("layout:hi_block", "the high parts are not written as one little-endian u16 each", g.span(n))
                continue
            got = []
            for off, w, node, v in t.entry:
                lv = le_value(v)
                lv = bare(lv) if lv is not None else None
                got.append((off, w, str(lv.a[1]) if lv is not None and lv.op == "f" else None))
            want = LAYOUT[t.kind]
            for i, wnt in enumerate(want):
                if i >= len(got) or got[i] != wnt:
                    ctx.violation("layout:%s:%s" % (t.kind, wnt[2]), "%s is not written as %d little-endian bytes at offset %d of its entry (found %s)" % (wnt[2], wnt[1], wnt[0], got[i] if i < len(got) else "nothing"), g.span(n))
            if len(got) > len(want):
                ctx.violation("layout:%s" % t.kind, "%s entries are longer than 16 bytes" % t.kind, g.span(n))
    ctx.floor("tables_serialised", 3)


def up(fr, top):
    out = []
    while fr is not None and fr is not top:
        out.append(fr)
        fr = fr.parent
    return out


def loop_of(f):
    for x in subterms(f):
        if x.op == "next":
            return x.a[0]
    return None


def same_index(I, g, f, i):
    """i is the index of the file f"""
    if f is i:
        return True
    if f.op == "count" and i.op == "phi" and i in I.phi_in:
        # a counter of its own: 0 before the loop, +1 in every iteration
        vs = [bare(I.simp(v)) for v in I.phi_in[i].values()]
        inc = [v for v in vs if v.op == "lin" and v.a[0] == 1 and len(v.a[1]) == 1 and bare(v.a[1][0][0]) is i and v.a[1][0][1] == 1]
        zero = [v for v in vs if is_c(v, 0)]
        return len(inc) + len(zero) == len(vs) and bool(inc) and bool(zero) and i.a[0] == f.a[0].a[0]
    return False


def table_size(I, t):
    t = bare(invariant_value(I, t))
    return t.op == "len" and "HashTable.entries" in show(t)


def written_file(I, s):
    """the pending file whose content a write_file call stores, if name and data are of the same one"""
    out = set()
    todo = [I.dv(s.st, a) for a in s.vals]
    while todo:
        t = I.simp(todo.pop())
        if t.op == "ref":
            t = I.dv(s.st, t)
        if t.op == "agg":
            todo += t.a[3]
        elif t.op in ("&", "*"):
            todo.append(t.a[0])
        elif t.op not in ("out", "upd", "ref"):
            out |= files_in(I, t, set())
    return out.pop() if len(out) == 1 else None


def files_in(I, t, seen):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == "f" and str(x.a[1]).startswith("PendingFile."):
                f = pending(I, x.a[0])
                if f is not None:
                    out.add(f)
                    continue
            if x.op == "ref":
                continue
            if x.op == "phi" and x in I.phi_in:
                st += [v for v in I.phi_in[x].values()]
            elif x.op not in ("call", "out") or x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("read", "clone", "to_vec"):
                st += x.a
    return out


# ---------------------------------------------------------------- readers of table entries
def from_bytes(ctx):
    prog = ctx.prog
    for adt, kind in ((HE, "hash"), (BE, "block")):
        f = adt + "::from_bytes"
        if not ctx.need(f):
            continue
        g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::"))
        ctx.functions.add(f)
        e = R(g)
        e.start((0, ()))
        names = fields(prog, adt)
        for ust, nid, cur in e.rets:
            ctx.count("entry_read_paths")
            reads = {n: (o, w) for n, o, w in ust[2][1][1]}
            t = e.value(ust, e.I.read(e.I.at_term(nid), (("L", g.root.id, 0), ())))
            h = e.value(ust, e.I.proj(mk("dc", t, OK), ("f", 0, "0")))
            for off, w, n in LAYOUT[kind]:
                short = n.split(".")[1]
                v = e.value(ust, e.I.proj(h, ("f", names.index(short), n)))
                s = source(v, reads) or slice_source(v)
                if s != (off, w, True):
                    ctx.violation("read:%s" % n, "%s takes %s from %s instead of %d bytes at offset %d" % (f, short, place(s), w, off), prog.fns[f]["span"], e.trail(cur))
    ctx.floor("entry_read_paths", 2)


def slice_source(t):
    """u32::from_le_bytes of constant places of the argument -> (offset, width, True)"""
    t = strip(t)
    if t.op == "from_le_bytes":
        t = strip(t.a[0])
    elif t.op == "pure" and t.a[0].endswith("from_le_bytes"):
        t = strip(t.a[1][0])
    else:
        return None
    while t.op == "f" and t.a[0].op == "dc" or t.op == "pure" and t.a[0].endswith(("try_into", "unwrap")):
        t = strip(t.a[0].a[0] if t.op == "f" else t.a[1][0])
        if t.op == "pure" and t.a[0].endswith("try_into"):
            t = strip(t.a[1][0])
    if t.op == "agg" and t.a[0] == "array":
        ix = []
        for x in t.a[3]:
            x = bare(x)
            if x.op != "idx" or not is_c(x.a[1]):
                return None
            ix.append(x.a[1].a[0])
        if ix == list(range(ix[0], ix[0] + len(ix))):
            return (ix[0], len(ix), True)
    if t.op == "slice" and is_c(t.a[1]) and is_c(t.a[2]):
        return (t.a[1].a[0], t.a[2].a[0] - t.a[1].a[0], True)
    return None


def table_reads(ctx):
    prog = ctx.prog
    for tab, adt in (("mopaq::tables::hash::HashTable", HE), ("mopaq::tables::block::BlockTable", BE), ("mopaq::tables::block::HiBlockTable", None)):
        f = tab + "::read"
        if not ctx.need(f):
            continue
        fb = adt + "::from_bytes" if adt else None
        g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::") and q != fb and not q.startswith("mopaq::crypto"))
        I = Interp(g)
        ctx.functions.add(f)
        sp = prog.fns[f]["span"]
        ctx.count("table_readers")
        seeks = [s for s in I.sites() if s.fn.endswith("::seek")]
        reads = [s for s in I.sites() if s.fn.endswith("::read_exact")]
        if not seeks or not all(s.vals[1].op == "agg" and s.vals[1].a[2] == 0 and bare(s.vals[1].a[3][0]) is mk_arg(prog, f, 1, I) for s in seeks):
            ctx.violation("table:%s:seek" % tab, "%s does not read from the given offset" % f, sp)
        free = g.forward([g.rpo[0]], stop=lambda n: n in {s.node for s in seeks})
        if any(s.node in free for s in reads):
            ctx.violation("table:%s:seek" % tab, "%s can read before seeking to the table" % f, sp)
        size = mk_arg(prog, f, 2, I)
        if adt is None:
            ok = True
            if not reads:
                ok = False
            pushes = [s for s in I.sites() if s.fn.endswith(("::push",))]
            for s in pushes:
                v = bare(s.vals[-1])
                src = [x for x in allterms(I, v) if x.op == "out" and str(x.a[2]).endswith("::read_exact")]
                if not src or static_or(g, I, reads, src[0].a[0]) != 2:
                    ok = False
            if not ok:
                ctx.violation("table:%s" % tab, "%s does not read one little-endian u16 per entry" % f, sp)
            continue
        lens = {I.length(s.st, s.vals[1]) if hasattr(I, "length") and False else None for s in reads}
        calls = [s for s in I.sites() if s.fn == fb]
        mapped = [s for s in I.sites() if s.fn.endswith("::map") and len(s.vals) == 2 and show(s.vals[1]).startswith("fn(" + fb)]
        bad = not calls and not mapped
        for s in mapped:
            a = bare(s.vals[0])
            if not (a.op in ("pure", "call") and a.a[0].rsplit("::", 1)[-1] in ("chunks_exact", "chunks") and is_c((a.a[1] if a.op == "pure" else a.a[2])[1], 16)):
                bad = True
        for s in calls:
            a = bare(s.vals[0])
            ok = False
            if a.op == "slice":
                lo, hi = a.a[1], a.a[2]
                if lo.op == "lin" and lo.a[0] == 0 and len(lo.a[1]) == 1 and lo.a[1][0][1] == 16:
                    i = bare(lo.a[1][0][0])
                    ok = counts(I, i, size) and (hi is None or add(hi, mklin(0, {lo.a[1][0][0]: -16})) is C(16) or not isinstance(hi, T))
            if a.op == "f" and a.a[0].op == "dc" and a.a[0].a[0].op == "next" or a.op in ("cloarg",):
                c = [x for x in allterms(I, a) if x.op == "pure" and x.a[0].rsplit("::", 1)[-1] in ("chunks_exact", "chunks") or x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("chunks_exact", "chunks")]
                c = [x for x in c if is_c((x.a[1] if x.op == "pure" else x.a[2])[1], 16)]
                ok = bool(c)
            if not ok:
                bad = True
        if bad:
            ctx.violation("table:%s:entry" % tab, "%s does not take entry i from bytes 16*i..16*i+16" % f, sp)
        buf = [s for s in reads if sixteen(I, s, size)]
        if not buf:
            ctx.violation("table:%s:size" % tab, "%s does not read 16 bytes per entry" % f, sp)


def sixteen(I, s, size):
    t = bare(s.vals[1])
    if t.op == "fill":
        n = t.a[1]
        return n.op == "lin" and n.a[0] == 0 and len(n.a[1]) == 1 and n.a[1][0][1] == 16 and bare(n.a[1][0][0]) is size
    return False


def counts(I, i, size):
    if i.op == "f" and i.a[0].op == "dc" and i.a[0].a[0].op == "next":
        r = invariant_value(I, i.a[0].a[0].a[1])
        return r.op == "agg" and is_c(r.a[3][0], 0) and bare(r.a[3][1]) is size
    return False


def mk_arg(prog, f, i, I):
    st = I.instate[I.g.rpo[0]]
    return bare(I.read(st, (("L", I.g.root.id, i + 1), ())))


def static_or(g, I, reads, node):
    for s in reads:
        if s.node == node:
            return width(g, I, s)
    return None


# ---------------------------------------------------------------- lookup
class Look(PathEsp):
    max_states = 100000

    def __init__(self, g):
        super().__init__(g)
        self.rets, self.backs = [], []

    def relevant(self, c):
        return True

    def on_move(self, ust, u, w):
        if w in self.nl and u in self.nl[w]:
            self.backs.append((ust[0], w, self.cur))
        return super().on_move(ust, u, w)

    def on_return(self, env, ust, node, rv):
        self.rets.append((ust, node.id, self.cur))


def lookup(ctx):
    prog = ctx.prog
    f = "mopaq::tables::hash::HashTable::find_file"
    if not ctx.need(f):
        return
    g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::tables"))
    e = Look(g)
    I = e.I
    e.start(())
    ctx.functions.add(f)
    sp = prog.fns[f]["span"]
    name, locale = mk_arg(prog, f, 1, I), mk_arg(prog, f, 2, I)
    is_name = lambda t: bare(I.simp(t)) is name

    def about(facts):
        """what a path knows of the entry it last looked at: (index, flags)"""
        out = {}
        for c, pol in facts:
            if c.op not in ("eq", "lt"):
                continue
            for a, b in (c.a, c.a[::-1]):
                a = bare(a)
                if a.op == "f" and str(a.a[1]).startswith("HashEntry."):
                    el = a.a[0]
                    el = (el.a[0], bare(el.a[1])) if el.op == "idx" else payload_element(I, bare(el))
                    if not el:
                        continue
                    d = out.setdefault(el[1], {})
                    fld = str(a.a[1]).split(".")[1]
                    if fld in ("name_1", "name_2") and c.op == "eq":
                        n = hashed(I, b, 1 if fld == "name_1" else 2)
                        if n is not None and is_name(n):
                            d[fld] = pol
                    if fld == "block_index":
                        if c.op == "eq" and is_c(b, EMPTY):
                            d["empty"] = pol
                        if c.op == "eq" and is_c(b, DELETED):
                            d["deleted"] = pol
                        if c.op == "lt" and bare(c.a[0]) is a and is_c(b) and b.a[0] in (DELETED, EMPTY):
                            d["lt%d" % (b.a[0] == EMPTY)] = pol
        for d in out.values():
            d["valid"] = d.get("lt0") is True or d.get("empty") is False and d.get("deleted") is False or d.get("lt1") is True and d.get("deleted") is False
        return out
    probes = {}

    def on_probe(i):
        if i not in probes:
            probes[i] = probe(I, i, is_name, lambda t: table_size(I, t))
        return probes[i]

    def any_locale(facts):
        return any(pol and c.op == "eq" and any(is_c(x, 0) for x in c.a) and any(bare(x) is locale for x in c.a) for c, pol in facts)

    for ust, nid, cur in e.rets:
        t = e.value(ust, I.read(I.at_term(nid), (("L", g.root.id, 0), ())))
        ab = about(ust[0])
        if t.op == "agg" and t.a[2] == 1:
            ctx.count("lookup_hits")
            tup = t.a[3][0]
            i = bare(tup.a[3][0]) if tup.op == "agg" else None
            ref = tup.a[3][1] if tup.op == "agg" else None
            el = None
            if ref is not None and ref.op == "ref":
                el = element(I, ref.a[0])
            elif ref is not None:
                el = payload_element(I, ref)
                if el is None and bare(ref).op == "idx":
                    el = (None, bare(bare(ref).a[1]), ())
            if el is None or el[2] or el[1] is not i:
                ctx.violation("lookup:result", "%s returns an entry with the index of another one" % f, sp, e.trail(cur))
                continue
            d = ab.get(i, {})
            for k, what in (("name_1", "name hash A"), ("name_2", "name hash B")):
                if d.get(k) is not True:
                    ctx.violation("lookup:%s" % k, "%s can return an entry without comparing its %s" % (f, what), sp, e.trail(cur))
            if not d.get("valid"):
                ctx.violation("lookup:valid", "%s can return an unused or deleted entry" % f, sp, e.trail(cur))
            if not on_probe(i):
                ctx.violation("lookup:probe", "%s looks at %s, not along the probe sequence hash_string(name, TABLE_OFFSET), +1, ... modulo the table size" % (f, show(i)[:80]), sp)
        elif t.op == "agg" and t.a[2] == 0:
            ctx.count("lookup_misses")
            reason = any(d.get("empty") is True and on_probe(i) for i, d in ab.items())
            for c, pol in ust[0]:
                if pol and c.op == "eq":
                    ms = [(x, modulo(x)) for x in c.a]
                    for (x, mx), (y, my) in (ms, ms[::-1]):
                        if mx and my and table_size(I, mx[1]) and table_size(I, my[1]) and hashed(I, mx[0], 0) is not None and my[0].op == "lin" and my[0].a[0] == 1 and len(my[0].a[1]) == 1 and on_probe(bare(my[0].a[1][0][0])):
                            reason = True
                    d = [x for x in c.a if x.op == "discr" and x.a[0].op == "next"]
                    if d and any(is_c(x, 0) for x in c.a):
                        r = d[0].a[0].a[1]
                        if r.op == "agg" and is_c(r.a[3][0], 0) and table_size(I, r.a[3][1]):
                            reason = True
                    if any(x.op == "len" and table_size(I, x) for x in c.a) and any(is_c(x, 0) for x in c.a):
                        reason = True                 # an empty table
            if not reason:
                ctx.violation("lookup:absent", "%s can report a file as absent before an unused slot or a full round" % f, sp, e.trail(cur))
            if any(d.get("name_1") and d.get("name_2") and d["valid"] for d in ab.values()) and any_locale(ust[0]):
                ctx.violation("lookup:missed", "%s can pass over the entry of the name" % f, sp, e.trail(cur))
        else:
            ctx.violation("lookup:result", "%s returns something the analysis cannot tell" % f, sp, e.trail(cur))
    for facts, w, cur in e.backs:
        ctx.count("lookup_rounds")
        if any(d.get("name_1") and d.get("name_2") and d["valid"] for d in about(facts).values()) and any_locale(facts):
            ctx.violation("lookup:missed", "%s can pass over the entry of the name" % f, sp, e.trail(cur))
    ctx.floor("lookup_hits", 1)
    ctx.floor("lookup_misses", 1)


def info(ctx):
    """Archive::find_file"""
    prog = ctx.prog
    f = "mopaq::archive::Archive::find_file"
    if not ctx.need(f):
        return
    FI = "mopaq::archive::FileInfo"
    g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::archive") or q.startswith("mopaq::tables::block"))
    e = Look(g)
    I = e.I
    e.start(())
    ctx.functions |= {fr.path for fr in g.frames}
    sp = prog.fns[f]["span"]
    name = mk_arg(prog, f, 1, I)
    names = fields(prog, FI)
    for ust, nid, cur in e.rets:
        st = I.at_term(nid)
        t = e.value(ust, I.read(st, (("L", g.root.id, 0), ())))
        if t.op == "agg" and t.a[2] == ERR:
            continue
        o = t.a[3][0] if t.op == "agg" else None
        if o is None or o.op != "agg":
            ctx.violation("info:result", "%s returns something the analysis cannot tell" % f, sp, e.trail(cur))
            continue
        if o.a[2] == 0:
            ctx.count("absent_paths")
            ok = any(c.op == "eq" and pol and any(is_c(x, 0) for x in c.a) and any(x.op == "discr" and x.a[0].op == "call" and x.a[0].a[0].endswith("HashTable::find_file") and bare(x.a[0].a[2][1]) is name for x in c.a) for c, pol in ust[0])
            # without the classic tables only HET/BET can tell
            ok = ok or any(c.op == "eq" and any(x.op == "discr" and show(x).endswith(("Archive.hash_table)", "Archive.block_table)")) for x in c.a) and pol == any(is_c(x, 0) for x in c.a) for c, pol in ust[0])
            if not ok:
                ctx.violation("info:absent", "%s can report a file as absent without looking it up in the hash table" % f, sp, e.trail(cur))
            continue
        fi = o.a[3][0]
        if fi.op != "agg":
            ctx.violation("info:result", "%s returns something the analysis cannot tell" % f, sp, e.trail(cur))
            continue
        ctx.count("found_paths")
        get = lambda n: e.value(ust, I.simp(fi.a[3][names.index(n)]))
        pos = get("file_pos")
        bad = None
        fp = bare(get("file_size"))
        if fp.op == "f" and str(fp.a[1]) == "BlockEntry.file_size":
            el = payload_element(I, bare(fp.a[0])) or (fp.a[0].op == "idx" and (fp.a[0].a[0], bare(fp.a[0].a[1]), ()))
            if not el or "BlockTable.entries" not in show(el[0]):
                bad = "the block entry is not taken from the block table"
            else:
                i = el[1]
                h = i.a[0] if i.op == "f" and str(i.a[1]) == "HashEntry.block_index" else None
                c = [x for x in subterms(h) if x.op == "call" and x.a[0].endswith("HashTable::find_file")] if h is not None else []
                if len(c) != 1 or bare(c[0].a[2][1]) is not name:
                    bad = "the block entry is not the one named by the hash entry of the name"
                for n in ("compressed_size", "flags"):
                    v = bare(get(n))
                    if not (v.op == "f" and v.a[0] is fp.a[0] and str(v.a[1]) == "BlockEntry." + n):
                        bad = "%s is not that of the file's block entry" % n
                if bare(get("block_index")) is not i:
                    bad = "block_index is not that of the file's hash entry"
                ps = dict(pos.a[1]) if pos.op == "lin" and pos.a[0] == 0 else {}
                off = [x for x in ps if is_field(x, "archive_offset") and ps[x] == 1]
                rest = [x for x in ps if x not in off]
                low = lambda x: bare(x).op == "f" and bare(x).a[0] is fp.a[0] and str(bare(x).a[1]) == "BlockEntry.file_pos"

                def high(x):
                    x = bare(x)
                    if x.op == "lin" and x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 << 32:
                        x = bare(x.a[1][0][0])
                    elif x.op == "shl" and is_c(x.a[1], 32):
                        x = bare(x.a[0])
                    else:
                        return False
                    e2 = payload_element(I, x) or (x.op == "idx" and (x.a[0], bare(x.a[1]), ()))
                    return bool(e2) and e2[1] is i and "HiBlockTable.entries" in show(e2[0])
                has_hi = None
                for cc, pol in ust[0]:
                    if cc.op == "eq" and any(x.op == "discr" and "HiBlockTable.entries" in show(x) for x in cc.a):
                        has_hi = pol == any(is_c(x, 1) for x in cc.a)
                    if cc.op == "eq" and has_hi is None and any(x.op == "discr" and show(x).endswith("Archive.hi_block_table)") for x in cc.a) and pol == any(is_c(x, 0) for x in cc.a):
                        has_hi = False
                lowonly = len(off) == 1 and len(rest) == 1 and ps[rest[0]] == 1 and low(rest[0])
                both = len(off) == 1 and (len(rest) == 1 and ps[rest[0]] == 1 and bare(rest[0]).op in ("or", "xor") and len(bare(rest[0]).a) == 2 and any(low(a) and high(b) for a, b in (bare(rest[0]).a, bare(rest[0]).a[::-1]))
                                          or len(rest) == 2 and any(low(a) and ps[a] == 1 and (ps[b] == 1 << 32 and high(mklin(0, {b: 1 << 32})) or ps[b] == 1 and high(b)) for a, b in (rest, rest[::-1])))
                if not (both if has_hi else lowonly or both):
                    bad = "the position is not archive_offset + the position of the block entry%s" % (" with its high part" if has_hi else "")
        elif fp.op == "f" and str(fp.a[1]) == "BetFileInfo.file_size":
            ctx.count("bet_paths")
            c = fp.a[0].a[0].a[0] if fp.a[0].op == "f" and fp.a[0].a[0].op == "dc" else None
            if c is None or c.op not in ("call", "pure") or not c.a[0].endswith("get_file_info"):
                bad = "the file's data do not come from the BET table"
            else:
                i = bare((c.a[2] if c.op == "call" else c.a[1])[1])
                for n in ("compressed_size", "flags"):
                    v = bare(get(n))
                    if not (v.op == "f" and v.a[0] is fp.a[0] and str(v.a[1]) == "BetFileInfo." + n):
                        bad = "%s is not that of the file's BET entry" % n
                ps = dict(pos.a[1]) if pos.op == "lin" and pos.a[0] == 0 else {}
                if sorted("archive_offset" if is_field(x, "archive_offset") else str(bare(x).a[1]) if bare(x).op == "f" and bare(x).a[0] is fp.a[0] else "?" for x in ps) != ["BetFileInfo.file_pos", "archive_offset"] or set(ps.values()) != {1}:
                    bad = "the position is not archive_offset + the position of the BET entry"
                if bare(get("block_index")) is not i:
                    bad = "block_index is not that of the file's BET entry"
                if not any(pol and cc.op == "eq" and full_hash(I, st, cc, i, name) for cc, pol in ust[0]):
                    bad = bad or "a BET entry is accepted without comparing its full name hash"
        else:
            bad = "its size is %s" % show(fp)[:80]
        if bad:
            ctx.violation("info:found", "%s returns data that need not be the named file's: %s" % (f, bad), sp, e.trail(cur))
    ctx.floor("found_paths", 2)


def full_hash(I, st, c, i, name):
    def val(t):
        for _ in range(6):
            t = I.simp(t)
            if t.op == "ref":
                vs = {I.read(I.instate[n], t.a[0]) for n in I.instate}
                vs = {v for v in vs if v.op != "undef"}
                if len(vs) != 1:
                    break
                t = vs.pop()
            elif t.op in ("&", "*"):
                t = t.a[0]
            elif t.op == "agg" and t.a[1] == OPTION and t.a[2] == 1:
                t = t.a[3][0]
            elif t.op == "f" and t.a[0].op == "dc":
                t = t.a[0].a[0]
            else:
                break
        return t
    for a, b in (c.a, c.a[::-1]):
        a, b = val(a), val(b)
        if b.op in ("call", "pure") and b.a[0] == JENK and bare((b.a[2] if b.op == "call" else b.a[1])[0]) is name:
            if a.op in ("call", "pure") and a.a[0].rsplit("::", 1)[-1] in ("get", "index"):
                args = a.a[2] if a.op == "call" else a.a[1]
                if "BetTable.bet_hashes" in show(args[0]) and bare(args[1]) is i:
                    return True
            if a.op == "idx" and "BetTable.bet_hashes" in show(a.a[0]) and bare(a.a[1]) is i:
                return True
    return False


def reading(ctx):
    """read_file reads where find_file(name) says"""
    prog = ctx.prog
    f = "mopaq::archive::Archive::read_file"
    if not ctx.need(f):
        return
    g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::archive") and not q.endswith("Archive::find_file"))
    I = Interp(g)
    ctx.functions |= {fr.path for fr in g.frames}
    name = mk_arg(prog, f, 1, I)
    sites = list(I.sites())
    ff = [s for s in sites if s.fn.endswith("Archive::find_file")]
    for s in ff:
        if bare(s.vals[1]) is not name and not is_c(s.vals[1]) and s.vals[1].op != "s":
            ctx.violation("reading:name", "read_file looks up another name than the one asked for", g.span(s.node))
    mine = [s for s in ff if bare(s.vals[1]) is name]
    ctx.count("read_file_lookups", len(mine))
    is_pos = lambda x: bare(x).op == "f" and str(bare(x).a[1]) == "FileInfo.file_pos" and any(y.op == "call" and any(y.a[1] == s.node for s in mine) for y in subterms(bare(x)))
    seeks, sector_seeks = {}, {}
    for s in sites:
        if s.fn.endswith("::seek"):
            ctx.count("read_file_seeks")
            seeks[s.node] = s
            v = s.vals[1]
            t = v.a[3][0] if v.op == "agg" and v.a[2] == 0 else None
            ok = False
            if t is not None:
                t = bare(invariant_value(I, t))
                if is_pos(t):
                    ok = True
                elif t.op == "lin" and t.a[0] == 0 and all(k == 1 for _, k in t.a[1]) and len(t.a[1]) == 2:
                    xs = [x for x, _ in t.a[1]]
                    for a, b in (xs, xs[::-1]):
                        if is_pos(a) and bare(b).op == "idx":
                            ok = True
                            sector_seeks[s.node] = bare(b)
            if not ok:
                ctx.violation("reading:seek", "read_file seeks to %s; expected the position of the named file, plus a sector offset" % (show(t if t is not None else v)[:100]), g.span(s.node))
    free = g.forward([g.rpo[0]], stop=lambda n: n in seeks)
    for s in sites:
        if s.fn.endswith("::read_exact") and s.node in free and not any(x.op == "call" and x.a[0].endswith("Cursor::<T>::new") for x in subterms(s.vals[0])) and "Archive.reader" in show(s.vals[0]):
            ctx.violation("reading:seek", "read_file can read without seeking to the file first", g.span(s.node))
    # a sector is read from its own offset up to the next one
    for n, at in sector_seeks.items():
        after = g.forward([w for _, w in g.nodes[n].succ], stop=lambda m: m in seeks)
        for s in sites:
            if s.fn.endswith("::read_exact") and s.node in after and "Archive.reader" in show(s.vals[0]):
                ctx.count("sector_reads")
                b = bare(s.vals[1])
                n2 = bare(invariant_value(I, b.a[1])) if b.op == "fill" else None
                ok = False
                if n2 is not None and n2.op == "lin" and n2.a[0] == 0 and len(n2.a[1]) == 2:
                    d = {k: bare(x) for x, k in n2.a[1]}
                    lo, hi = d.get(-1), d.get(1)
                    ok = lo is at and hi is not None and hi.op == "idx" and hi.a[0] is lo.a[0] and add(hi.a[1], mklin(-1, {})) is lo.a[1]
                    ok = ok or lo is at and hi is not None and hi.op == "idx" and hi.a[0] is lo.a[0] and is_c(hi.a[1], 1) and is_c(lo.a[1], 0)
                if not ok:
                    ctx.violation("reading:sector", "read_file seeks to sector offset %s but then reads %s bytes" % (show(at)[:80], show(n2 if n2 is not None else b)[:100]), g.span(s.node))
    ctx.floor("sector_reads", 1)
    ctx.floor("read_file_seeks", 1)
    ctx.floor("read_file_lookups", 1)


def run(ctx):
    ctx.rule = RULE
    writer(ctx)
    from_bytes(ctx)
    table_reads(ctx)
    lookup(ctx)
    info(ctx)
    reading(ctx)
