"""C07: the MD5 checksums of a version 4 archive are those of the bytes they stand for, and a mismatch is always reported."""
from c16 import *

RULE = ("Writer: on every successful path of build for version 4, each MD5 in the header is the MD5 digest of exactly the bytes passed to the write whose position the header records for that table (zero only for a table that "
        "was not written), and the header's own MD5, written last, that of the 192 bytes before it read back from the stream.  Reader: on every path of validate_v4_md5_checksums a flag of Md5Status is true only if the digest "
        "of the bytes read at archive offset + the table's recorded position, of the table's recorded size, was found equal to the table's recorded MD5, or the table is absent (position or size zero or none); header: the "
        "first 192 bytes.  get_info always takes the status from that function for a version 4 archive and passes errors on.")
VAL = "mopaq::archive::Archive::validate_v4_md5_checksums"
STATUS = "mopaq::archive::Md5Status"
MD5OFF = {"block": 112, "hash": 128, "hi_block": 144, "bet": 160, "het": 176}


def digest_input(t):
    """finalize(update(new, &x)) -> x, nothing else hashed"""
    t = deref(t)
    if t.op == "pure" and t.a[0].endswith(("::into", "::from", "::to_vec", "digest")) and len(t.a[1]) == 1 and t.a[1][0].op in ("call", "pure"):
        t = deref(t.a[1][0])
    if t.op == "call" and t.a[0].endswith("::finalize") and len(t.a[2]) == 1:
        u = deref(t.a[2][0])
        if u.op == "out" and str(u.a[2]).endswith("::update"):
            n = deref(u.a[-1][0])
            if n.op == "call" and n.a[0].endswith("::new"):
                return deref(u.a[-1][1])
    if t.op == "call" and t.a[0].endswith("::digest") and len(t.a[2]) == 1:
        return deref(t.a[2][0])
    return None


def is_md5(g, t):
    """the digest is MD5 (type of the hasher)"""
    for x in subterms(t):
        if x.op == "call" and x.a[0].endswith(("::finalize", "::digest")):
            n = g.nodes[x.a[1]]
            fr, tm = n.term[1], n.term[2]
            k = tm["f"].get("k") or {}
            ty = str(k) + str([fr.fn["locals"][(o.get("m") or o.get("c"))[0]]["ty"] for o in tm["args"] if (o.get("m") or o.get("c"))])
            return "md5" in ty.lower()
    return False


def writer_md5(ctx):
    w = Writer(ctx)
    if w.e.exceeded:
        ctx.violation("undecided", "too many paths in build", w.sp)
        return
    done = set()
    for vs, cur, st, at in w.paths():
        if 3 not in vs or st is None:
            continue
        ps, pairs, off, hdr, start, ends = st
        h = w.header(hdr, at)
        if h is None or 192 not in h:
            ctx.violation("writer", "a version 4 archive can be written without header checksums", w.sp, w.e.trail(cur))
            continue
        key = (st, frozenset((o, x) for o, (_, x) in h.items()))
        if key in done:
            continue
        done.add(key)
        ctx.count("v4_write_paths")
        for name, o in MD5OFF.items():
            x = h.get(o, (None, None))[1]
            p = h.get(TABLES[name][0], (None, None))[1]
            p = le_value(p) if p is not None else None
            ctx.count("md5_written")
            if x is None:
                ctx.violation("writer:%s" % name, "the MD5 of the %s table is not written" % name, w.sp, w.e.trail(cur))
                continue
            if p is not None and is_c(p, 0):
                continue                                   # no such table: nobody compares it
            n = pos_node(p) if p is not None else None
            q = [q for p_, q in pairs if p_ == n and w.e.sites[q].fn not in w.ws]
            d = digest_input(x)
            if not q or d is None or not is_md5(w.g, x):
                ctx.violation("writer:%s" % name, "the MD5 recorded for the %s table is not a digest of that table" % name, w.sp, w.e.trail(cur))
                continue
            b = deref(at(w.e.sites[q[0]].vals[1]))
            if at(d) is not b:
                ctx.violation("writer:%s" % name, "the MD5 recorded for the %s table is not that of the bytes written" % name, w.sp, w.e.trail(cur))
        # the header's own checksum
        x = [z for z in hdr if z[0] == 192]
        if len(x) < 1 or hdr[-1][0] != 192:
            ctx.violation("writer:header", "the header changes after its MD5 was computed", w.sp, w.e.trail(cur))
            continue
        d = digest_input(at(x[-1][3]))
        ok = False
        if d is not None and is_md5(w.g, at(x[-1][3])) and d.op == "out" and str(d.a[2]).endswith("::read_exact"):
            s = w.e.sites[d.a[0]]
            ok = width192(w, s) and seek0(d)
        if not ok:
            ctx.violation("writer:header", "the header MD5 is not that of the first 192 bytes of the finished header", w.sp, w.e.trail(cur))
    return w


def width192(w, s):
    if width(w.g, w.I, s) == 192:
        return True
    ln = w.I.len_of(deref(w.I.simp(s.vals[1])))
    return ln is not None and is_c(ln, 192)


def seek0(d):
    """the stream was positioned at its start directly before the read"""
    s = deref(d.a[-1][0])
    return s.op == "out" and str(s.a[2]).endswith(("::seek", "::rewind")) and (str(s.a[2]).endswith("rewind") or s.a[-1][1].op == "agg" and s.a[-1][1].a[2] == 0 and is_c(s.a[-1][1].a[3][0], 0))


# ---------------------------------------------------------------- reader
class V(PathEsp):
    max_states = 400000

    def __init__(self, g):
        super().__init__(g)
        self.sites = {s.node: s for s in self.I.sites()}
        self.rets = []
        self.cmps = {n for n, s in self.sites.items() if s.fn.rsplit("::", 1)[-1] in ("eq", "ne") and any("md5_" in show_names(v) for v in s.vals)}

    def relevant(self, c):
        if any(x.op == "call" and x.a[0].endswith(("::seek", "::read_exact")) for x in subterms(c)) and not any(x.op == "f" and ".md5_" in str(x.a[1]) for x in subterms(c)):
            return False
        return any(x.op == "f" and str(x.a[1]).startswith(("MpqHeader", "Archive.")) for x in subterms(c))

    def call(self, env, cl, node, fr, t, args, p, k, ust):
        if node.id in self.cmps:
            eq_ = p.endswith("::eq")
            return [(("i", int(eq_)), cl | {(node.id, True)}), (("i", int(not eq_)), cl | {(node.id, False)})]
        return None

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def show_names(t):
    return " ".join(str(x.a[1]) for x in subterms(t) if x.op == "f")


def compared(e, I, node, at):
    """a comparison site -> (md5 field, position term, size term) or None"""
    s = e.sites[node]
    vals = [deref(at(v)) for v in s.vals[:2]]
    for a, b in (vals, vals[::-1]):
        if a.op == "f" and ".md5_" in str(a.a[1]):
            d = digest_input(b)
            if d is None or not is_md5(e.g, b) or d.op != "out" or not str(d.a[2]).endswith("::read_exact"):
                return None
            rd = e.sites[d.a[0]]
            ln = I.len_of(deref(I.simp(rd.vals[1])))
            sk = deref(d.a[-1][0])
            if sk.op != "out" or not str(sk.a[2]).endswith("::seek"):
                return None
            pos = sk.a[-1][1]
            if pos.op != "agg" or pos.a[2] != 0:
                return None
            return str(a.a[1]).split(".")[-1], at(pos.a[3][0]), at(ln) if ln is not None else None
    return None


def reader_md5(ctx):
    prog = ctx.prog
    if not ctx.need(VAL):
        return
    sp = prog.fns[VAL]["span"]
    g = Graph(prog, VAL, inline=lambda q, fr: q.startswith("mopaq::archive::") and (not prog.fns[q].get("pub", True) or "{closure" in q) or q.startswith("mopaq::crypto::"))
    ctx.functions |= {fr.path for fr in g.frames}
    e = V(g)
    e.start(frozenset())
    if e.exceeded:
        ctx.violation("undecided", "too many paths in validate_v4_md5_checksums", sp)
        return
    names = fields(prog, STATUS)
    done = set()
    for rv, ust, cur in e.rets:
        if rv is not None and rv[0] == "v" and rv[2] == ERR:
            continue
        at = lambda t, u=ust: invariant_value(e.I, e.value(u, t))
        v4 = [pol == any(is_c(x, 1) for x in c.a) for c, pol in ust[0] if c.op == "eq" and any(x.op == "discr" and is_field(x.a[0], "v4_data") for x in c.a)]
        st = rv[3][0] if rv is not None and rv[0] == "v" else None
        if st is not None and st[0] == "v" and st[2] == 0:
            if not v4 or v4[0]:
                ctx.violation("reader:none", "no MD5 status is reported for an archive that has checksums", sp, e.trail(cur))
            continue
        st = st[3][0] if st is not None and st[0] == "v" and st[3] else None
        if st is None or st[0] != "v":
            ctx.violation("reader", "validate_v4_md5_checksums returns a status the analysis cannot follow", sp, e.trail(cur))
            continue
        ctx.count("v4_status_paths")
        for n, v in zip(names, st[3]):
            tn = n[:-len("_valid")].replace("_table", "")
            if v is None or v[0] != "i":
                ctx.violation("reader:%s" % n, "%s is a value the analysis cannot follow" % n, sp, e.trail(cur))
                continue
            if not v[1]:
                continue
            ctx.count("flags_true")
            key = (n, ust[0], ust[2])
            why = justified(ctx, e, at, ust, tn)
            if why:
                ctx.violation("reader:%s" % n, "%s can be true although %s" % (n, why), sp, e.trail(cur))


def justified(ctx, e, at, ust, tn):
    want = "md5_mpq_header" if tn == "header" else "md5_%s_table" % tn
    for node, res in ust[2][1]:
        if not res:
            continue
        c = compared(e, e.I, node, at)
        if c is None or c[0] != want:
            continue
        md5, pos, ln = c
        if tn == "header":
            if is_field(pos, "archive_offset") and ln is not None and is_c(ln, 192):
                return None
            return "the digest compared is not that of the first 192 bytes of the header"
        rest = [x for x, k in pos.a[1] if not is_field(x, "archive_offset")] if pos.op == "lin" and pos.a[0] == 0 and all(k == 1 for _, k in pos.a[1]) else []
        if len(rest) != 1 or len(pos.a[1]) != 2 or not position(e.I, rest[0], "%s_table_pos" % tn):
            return "the digest compared is not taken at the position of that table"
        if ln is None or not is_field(ln, "%s_table_size_64" % tn):
            return "the digest compared does not cover the recorded size of that table"
        return None
    # absent
    f = ust[0]

    def zero(c, pol):
        names = {str(x.a[1]).split(".")[-1] for x in subterms(c) if x.op == "f"}
        ok = names & ({"%s_table_size" % tn, "%s_table_size_64" % tn, "%s_table_pos" % tn})
        if not ok or tn == "header":
            return False
        if names - ok - {"header", "v4_data", "0", "hash_table_pos_hi", "block_table_pos_hi"} and not all(x in ("header", "v4_data", "0") or x in ok for x in names):
            return False
        if c.op == "eq":
            k = [x for x in c.a if x.op == "c"]
            d = [x for x in c.a if x.op == "discr"]
            return bool(k) and (k[0].a[0] == 0) == pol
        if c.op == "lt":
            return pol and is_c(c.a[1], 1) or not pol and is_c(c.a[0], 0)
        return False
    if any(zero(c, pol) for c, pol in f):
        return None
    return "the digest of the table was not found equal to the recorded one, and the table is not absent"


GI = "mopaq::archive::Archive::get_info"


def info(ctx):
    """the status in the archive information is the one computed"""
    prog = ctx.prog
    if not ctx.need(GI):
        return
    g = Graph(prog, GI, inline=lambda q, fr: q != VAL and q.startswith("mopaq::archive::") and not prog.fns[q].get("pub", True) and "{closure" not in q)
    I = Interp(g)
    adt = "mopaq::archive::ArchiveInfo"
    idx = fields(prog, adt).index("md5_status")
    n = 0
    for nid, fr, t, st, sp in aggs(I, adt):
        n += 1
        v = I.simp(t.a[3][idx])
        ls = leaves(I, v)
        for x in ls:
            ctx.count("status_sources")
            ok = x.op == "f" and x.a[0].op == "dc" and x.a[0].a[1] == OK and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == VAL
            none = x.op == "agg" and x.a[1] == OPTION and x.a[2] == 0
            if none:
                none = only_without_v4(I, g, v, x)
            if not ok and not none:
                ctx.violation("info", "get_info reports an MD5 status that is not the one computed (%s)" % show(x)[:80], sp)
    if not n:
        ctx.violation("info", "get_info no longer builds an ArchiveInfo", prog.fns[GI]["span"])
    lits(ctx)


def only_without_v4(I, g, v, x):
    """None reaches the field only on edges where the header has no V4 data"""
    todo, seen = [v], set()
    while todo:
        p = todo.pop()
        if p in seen or p.op != "phi" or p not in I.phi_in:
            if p is x and p is v:
                return False
            continue
        seen.add(p)
        for (k, lab), y in I.phi_in[p].items():
            y = I.simp(y)
            if y is x:
                fs = set(I.instate[k].facts) | set(I.new_facts(k, lab) or ())
                fs = I.expand(fs)
                if not any(c.op == "eq" and any(z.op == "discr" and is_field(z.a[0], "v4_data") for z in c.a) and any(is_c(z, 1) for z in c.a) != pol for c, pol in fs):
                    return False
            else:
                todo.append(y)
    return True


def lits(ctx):
    """nothing else makes up a status"""
    prog = ctx.prog
    for f in sorted(prog.fns):
        if f.startswith(VAL) or "::tests::" in f or not f.startswith(("mopaq::", "storm")):
            continue
        if "Clone" in f or "clone" in f.rsplit("::", 1)[-1]:
            continue
        for b in prog.fns[f]["blocks"]:
            for s in b["s"]:
                v = s.get("v") or {}
                if v.get("r") == "agg" and v.get("adt") == STATUS and not called_only_from(prog, f, VAL):
                    ctx.violation("info", "%s constructs an MD5 status of its own" % short(f), s.get("sp"))


def called_only_from(prog, f, root):
    cg = prog.callgraph()[0]
    return all(c.startswith(root) or c == f for c in prog.fns for q, _, _ in cg[c] if q == f)


def run(ctx):
    writer_md5(ctx)
    reader_md5(ctx)
    info(ctx)
    ctx.floor("v4_write_paths", 1)
    ctx.floor("md5_written", 5)
    ctx.floor("v4_status_paths", 1)
    ctx.floor("flags_true", 6)
    ctx.floor("status_sources", 1)
