import re
from common import *
from filefmt import *
from factesp import natural_loops
from terms import lin_parts
import c30

RULE = ("Value-flow over the builder's store-one-file function and Archive::read_file: every call of the cipher gets the key the other side uses.  Base key: the FILE_KEY hash of the file's name; "
        "with the FIX_KEY flag (h + position relative to the archive start) XOR original size, and without it h alone, decided on every path by path-sensitive typestate; "
        "sector table: base - 1; sector i: base + i with i the sector's own index; single unit: base.  Tables: the builder encrypts the hash and block table with exactly the key constants the reader decrypts them with.")

HASH = re.compile(r"(^|::)hash_string$")


def uncast(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def split_key(t):
    """(base term, const, [other terms]) of a key"""
    c, d = lin_parts(t)
    return list(d.items()), c


def is_hash(t):
    return t.op in ("call", "pure") and HASH.search(str(t.a[0]))


def hash_args(t):
    v = t.a[-1]
    return v


class KW(c30.W):
    def __init__(self, g, prog, fixst):
        super().__init__(g, prog)
        self.fixst = fixst

    def on_stmt(self, env, ust, node, fr, s, val):
        if (node.id, id(s)) in self.fixst:
            return (ust[0], ust[1], (ust[2][0], ust[2][1] | {"fix"}))
        return ust


class KR(c30.R):
    def __init__(self, g, prog, fixst):
        super().__init__(g, prog)
        self.fixst = fixst

    def on_stmt(self, env, ust, node, fr, s, val):
        if (node.id, id(s)) in self.fixst:
            return (ust[0], ust[1], ust[2] | {"fix"})
        return ust

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if HASH.search(p):
            return [(None, cl | {"hash"})]
        if p in self.dec and "hash" not in cl:
            return [(None, cl | {"dec-nokey"})]
        return super().call(env, cl, node, fr, t, args, p, k, facts)


def xor_stmts(I):
    out = {}
    for nid, fr, x, st in I.steps():
        if (x.get("v") or {}).get("op") == "BitXor":
            t = I.simp(I.rvalue(st, fr, x["v"], x.get("sp")))
            if any(is_hash(y) for y in subterms(t)):
                out[(nid, id(x))] = (t, x.get("sp"))
    return out


def name_ok_writer(I, t):
    return True


def check_side(ctx, side, g, I, fns, where, pos_ok, size_ok, name_ok, loops):
    """structure of the key of every cipher call; returns the set of base-key forms seen"""
    prog = ctx.prog
    inloop = set().union(*loops.values()) if loops else set()
    forms = set()
    for s in I.sites():
        if s.fn not in fns:
            continue
        ctx.count("cipher_calls")
        kt = s.vals[next(i for i, l in reversed(list(enumerate(prog.fns[s.fn]["locals"][1:prog.fns[s.fn]["argc"] + 1]))) if l["ty"] == "u32")]
        bi = next(i for i, l in enumerate(prog.fns[s.fn]["locals"][1:]) if MUTBUF.match(l["ty"]))
        role = where(s, s.vals[bi])
        if role is None:
            ctx.violation("%s-role" % side, "%s: cipher applied to something that is neither file data nor the sector table: %s" % (side, show(s.vals[bi])[:100]), s.sp)
            continue
        run_ = running(I, loops, kt)
        if run_ is not None:
            # a key that starts at the base and grows by one per iteration: base + number of the iteration
            if role != "sector" or not same_loop(I, loops, run_[1], I.dv(s.st, s.vals[bi])):
                ctx.violation("%s-key-index" % side, "%s: the running key %s does not advance with the sector being processed" % (side, show(kt)[:80]), s.sp)
                continue
            kt = run_[0]
            role = "running"
        for l in leaves(I, kt):
            thin = [x for x in key_terms(l) if x.op == "cast" and str(x.a[0]) in ("u8", "i8", "u16", "i16")]
            if thin:
                ctx.violation("%s-key-narrow" % side, "%s: the key %s drops high bits of what it is made from (%s)" % (side, show(kt)[:80], thin[0].a[0]), s.sp)
        parts, c = split_key(kt)
        base = [(t, k) for t, k in parts if not is_index(I, t)]
        idx = [(t, k) for t, k in parts if is_index(I, t)]
        if c >= 2 ** 31:
            c -= 2 ** 32
        want = {"whole": (0, 0), "running": (0, 0), "tab": (-1, 0), "sector": (0, 1)}[role]
        ok = len(base) == 1 and base[0][1] == 1 and c == want[0] and len(idx) == want[1] and all(k == 1 for t, k in idx)
        if not ok:
            ctx.violation("%s-key-offset:%s" % (side, role), "%s: the key for the %s is %s; expected base %s" %
                          (side, {"whole": "single unit", "running": "first sector", "tab": "sector table", "sector": "sector"}[role], show(kt)[:100], {"whole": "", "running": "", "tab": "- 1", "sector": "+ sector index"}[role]), s.sp)
            continue
        if role == "sector" and not sector_index(I, s, bi, idx[0][0]):
            ctx.violation("%s-key-index" % side, "%s: the sector key uses %s, which is not the index of the sector being processed" % (side, show(idx[0][0])[:80]), s.sp)
        for l in leaves(I, base[0][0]):
            if is_c(l, 0):
                forms.add("0")
                continue
            h = [x for x in subterms(l) if is_hash(x)]
            if len(h) != 1:
                ctx.violation("%s-key-base" % side, "%s: key %s is not derived from one hash of the file name" % (side, show(l)[:100]), s.sp)
                continue
            a = h[0].a[-1]
            if not (is_c(a[1], 3) and name_ok(a[0])):
                ctx.violation("%s-key-name" % side, "%s: the key hashes %s with type %s; expected the file's name with the FILE_KEY type" % (side, show(a[0])[:80], show(a[1])), s.sp)
            if l is h[0]:
                forms.add("h")
                continue
            if l.op != "xor" or len(l.a) != 2:
                ctx.violation("%s-key-form" % side, "%s: key %s is neither h nor (h + position) ^ size" % (side, show(l)[:120]), s.sp)
                continue
            summ = [x for x in l.a if h[0] in subterms(x)]
            size = [x for x in l.a if h[0] not in subterms(x)]
            if len(summ) != 1 or len(size) != 1:
                ctx.violation("%s-key-form" % side, "%s: key %s" % (side, show(l)[:120]), s.sp)
                continue
            c0, co = lin_parts(summ[0])
            rest = [(t, k) for t, k in co.items() if t is not h[0]]
            hk = [k for t, k in co.items() if t is h[0]]
            if hk != [1] or c0 % (2 ** 32) != 0 or not rest or not pos_ok(rest):
                ctx.violation("%s-key-position" % side, "%s: the adjusted key adds %s; expected the file's position relative to the archive" % (side, show(summ[0])[:120]), s.sp)
            if not all(size_ok(uncast(z)) for z in leaves(I, uncast(size[0]))):
                ctx.violation("%s-key-size" % side, "%s: the adjusted key XORs %s; expected the file's original size" % (side, show(size[0])[:120]), s.sp)
            forms.add("fix")
        ctx.sample("%s: %s key %s" % (side, role, show(kt)[:80]))
    for need in ("h", "fix"):
        if need not in forms:
            ctx.violation("%s-no-%s" % (side, need), "%s never uses the %s key" % (side, "plain" if need == "h" else "position-adjusted"))


def key_terms(t):
    """subterms of a key, not those of the hash it starts from or of the data it indexes"""
    out, work = [], [t]
    while work:
        x = work.pop()
        out.append(x)
        if x.op in ("call", "pure", "next", "len", "idx", "f", "out", "phi"):
            continue
        work.extend(y for y in flat(x.a) if hasattr(y, "op"))
    return out


def running(I, loops, t):
    """(initial value, header) when t is a loop variable that grows by exactly one per iteration"""
    t = uncast(t)
    if t.op != "phi" or t not in I.phi_in:
        return None
    h = next((h for h, b in loops.items() if t.a[0] == h or (t.a[0] in b and all(t.a[0] not in b2 for h2, b2 in loops.items() if h2 != h))), None)
    if h is None:
        return None
    init, body = [], []
    for p, v in I.phi_in[t].items():
        (body if p[0] in loops[h] else init).append(v)
    if len(set(init)) != 1 or not body:
        return None
    for v in body:
        c, d = lin_parts(v)
        if d != {t: 1} or c != 1:
            return None
    return init[0], h


def same_loop(I, loops, h, b):
    """the buffer holds the sector that belongs to the loop's iteration number"""
    for x in content_all(I, b):
        if x.op == "next" and x.a[0] in loops[h]:
            return True
        if x.op == "idx":
            r = running(I, loops, x.a[1])
            if r and r[1] == h and is_c(r[0], 0):
                return True
    return False


def is_index(I, t):
    t = uncast(t)
    if is_hash(t) or t.op == "xor":
        return False
    if t.op == "phi":
        return not any(is_hash(x) for l in leaves(I, t) for x in subterms(l))
    return not any(is_hash(x) for x in subterms(t)) and any(x.op in ("next", "phi") for x in subterms(t))


def sector_index(I, s, bi, idx):
    """the index in the key selects the buffer: the buffer's bytes were read from / cut at offsets[idx]"""
    i = uncast(idx)
    b = I.dv(s.st, s.vals[bi])
    nx = [x for x in subterms(i) if x.op == "next"]
    for x in content(I, b, ("eq",)):
        if x.op == "idx" and uncast(x.a[1]) is i:
            return True
        if nx and x is nx[0]:
            return True
    # reader: the buffer was filled by a read positioned at offsets[i]
    for x in content_all(I, b):
        if x.op == "idx" and uncast(x.a[1]) is i:
            return True
        if nx and x is nx[0] and i.op == "f" and i.a[0].op == "f" and i.a[0].a[0].op == "dc" and i.a[0].a[0].a[0] is x and i.a[2][1] == 0:
            return True          # counted along with the elements
    return False


def content_all(I, t):
    seen, work = set(), [t]
    while work and len(seen) < 4000:
        x = work.pop()
        if x in seen or not hasattr(x, "op"):
            continue
        seen.add(x)
        if x.op == "phi":
            work.extend(I.phi_in.get(x, {}).values())
        for y in x.a:
            if isinstance(y, tuple):
                work.extend(flat(y))
            elif hasattr(y, "op"):
                work.append(y)
    return seen


def run(ctx):
    prog = ctx.prog
    ws = file_writers(prog)
    if len(ws) != 1 or not ctx.need(c30.READ):
        ctx.violation("writer", "expected one function of the builder that stores a file and returns its flags, found %s" % ws)
        return
    w = ws[0]
    # ---- writer
    g = writer_graph(prog, w)
    ctx.functions |= {fr.path for fr in g.frames}
    I = Interp(g)
    xs = xor_stmts(I)
    e = KW(g, prog, xs)
    loops = natural_loops(g)
    inl = set().union(*loops.values()) if loops else set()

    def wrole(s, b):
        k = e.kinds.get(s.node)
        if k == "data":
            return "sector" if s.node in inl else "whole"
        return "tab" if k == "tab" else None

    def params_field(name):
        return lambda t: any(x.op == "f" and str(x.a[1]).endswith("." + name) for x in [t]) or (t.op == "param" and t.a[1] == name)

    def wname(t):
        t = strip(t)
        return t.op in ("f", "param") and str_ty(prog, w, t)

    def wpos(rest):
        return len(rest) == 1 and rest[0][1] == 1 and uncast(rest[0][0]).op in ("f", "param", "*") and "u64" in ty_of(prog, w, uncast(rest[0][0]))

    def wsize(t):
        return t.op == "len" and strip(t.a[0]) in {strip(r) for r in e.roots}
    check_side(ctx, "writer", g, I, e.enc, wrole, wpos, wsize, wname, loops)
    e.start(((), frozenset()))
    if e.exceeded:
        ctx.violation("undecided:writer", "too many paths in %s" % w)
    for rv, ust, cur in e.rets:
        f = c30.flat_flags(rv)
        if f in ("err", "?"):
            continue
        ctx.count("writer_paths")
        if f & F_ENCRYPTED and bool(f & F_FIX) != ("fix" in ust[2][1]):
            ctx.violation("writer-fix:%s" % bool(f & F_FIX), "the builder %s FIX_KEY but encrypts with the %s key" % ("sets" if f & F_FIX else "does not set", "adjusted" if "fix" in ust[2][1] else "plain"),
                          prog.fns[w]["span"], e.trail(cur))
    # ---- reader
    g = reader_graph(prog, c30.READ)
    ctx.functions |= {fr.path for fr in g.frames}
    I = Interp(g)
    xs = xor_stmts(I)
    e = KR(g, prog, xs)
    loops = natural_loops(g)

    def rrole(s, b):
        k = e.dkind(s.node)
        return k if k in ("whole", "tab", "sector") else None

    def rname(t):
        t = strip(t)
        return t.op == "param" and t.a[0] == 2

    def rpos(rest):
        if len(rest) != 1 or rest[0][1] != 1:
            return False
        c, co = lin_parts(uncast(rest[0][0]))
        d = {fieldname(t): k for t, k in co.items()}
        return c == 0 and d == {"FileInfo.file_pos": 1, "Archive.archive_offset": -1}

    def rsize(t):
        return fieldname(t) in ("FileInfo.file_size", "BlockEntry.file_size")
    check_side(ctx, "reader", g, I, e.dec, rrole, rpos, rsize, rname, loops)
    e.start(frozenset())
    if e.exceeded:
        ctx.violation("undecided:reader", "too many paths in read_file")
    for rv, ust, cur in e.rets:
        if rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR:
            continue
        ff = c30.flag_facts(ust[0])
        ev = ust[2]
        ctx.count("reader_paths")
        if "dec-nokey" in ev:
            ctx.violation("reader-nokey", "read_file decrypts without having computed the file's key", prog.fns[c30.READ]["span"], e.trail(cur))
        if any(x.startswith("dec:") for x in ev) and ff.get(F_FIX) is not ("fix" in ev):
            ctx.violation("reader-fix:%s" % ff.get(F_FIX), "read_file decrypts with the %s key although FIX_KEY is %s" % ("adjusted" if "fix" in ev else "plain", ff.get(F_FIX)),
                          prog.fns[c30.READ]["span"], e.trail(cur))
    tables(ctx)
    ctx.floor("cipher_calls", 4)
    ctx.floor("writer_paths", 8)
    ctx.floor("reader_paths", 4)


def strip(t):
    while t.op in ("&", "*", "ref") and hasattr(t.a[0], "op"):
        t = t.a[0]
    return t


def fieldname(t):
    t = uncast(t)
    while t.op in ("*", "&"):
        t = t.a[0]
    return str(t.a[1]) if t.op == "f" else None


def ty_of(prog, w, t):
    t = strip(t)
    if t.op == "param":
        return prog.fns[w]["locals"][t.a[0]]["ty"]
    if t.op == "f":
        nm = str(t.a[1])
        for a in prog.adts.values():
            for v in a["variants"]:
                for f in v["fields"]:
                    if nm == "%s.%s" % (v["name"], f[0]):
                        return f[1]
    return ""


def str_ty(prog, w, t):
    return "str" in ty_of(prog, w, t) or "String" in ty_of(prog, w, t)


TABLE_READERS = [("hash table", "mopaq::tables::hash::HashTable"), ("block table", "mopaq::tables::block::BlockTable")]


def tables(ctx):
    """table keys: the strings hashed by the builder for encrypting and by the readers for decrypting, per table"""
    from buildmodel import build_model
    prog = ctx.prog
    g, I, ws, enc = build_model(ctx)
    wkeys = {}
    for s in I.sites():
        if s.fn in enc:
            kt = s.vals[-1]
            ctx.count("table_cipher_calls")
            lit = table_key(I, kt)
            if lit is None:
                ctx.violation("table-key:" + s.frame.path, "%s encrypts a table with %s, not with the hash of a fixed name" % (s.frame.path, show(kt)[:100]), s.sp)
            else:
                wkeys.setdefault(lit, []).append(s)
    dec = decryptors(prog)
    rkeys = {}
    for p, f in prog.fns.items():
        if f["crate"] != "mopaq" or not p.startswith("mopaq::tables") or "{closure" in p:
            continue
        if p in dec or not (set(prog.reachable([p])) & dec):
            continue
        if any(c in dec for c in direct_calls(prog, p)):
            J = Interp(Graph(prog, p, inline=lambda q, fr: q.startswith("mopaq::tables") and q not in dec))
            ctx.functions.add(p)
            for s in J.sites():
                if s.fn in dec:
                    kt = s.vals[-1]
                    ctx.count("table_cipher_calls")
                    lit = table_key(J, kt)
                    if lit is None:
                        if kt.op == "param":
                            continue      # a key handed in by the caller, judged there
                        ctx.violation("table-key:" + p, "%s decrypts a table with %s, not with the hash of a fixed name" % (p, show(kt)[:100]), s.sp)
                    else:
                        rkeys.setdefault(lit, []).append((p, s))
    ctx.notes.append("table keys: builder %s, readers %s" % ({k: len(v) for k, v in wkeys.items()}, {k: sorted({p for p, _ in v}) for k, v in rkeys.items()}))
    for k in wkeys:
        if k not in rkeys:
            ctx.violation("table-key-unread:%s" % (k,), "the builder encrypts a table with the hash of %r (type %s), which no reader uses" % k, wkeys[k][0].sp)
    # per table type
    for name, ty in TABLE_READERS:
        ks = {k for k, v in rkeys.items() if any(p.startswith(ty) for p, _ in v)}
        if len(ks) != 1:
            ctx.violation("table-key-reader:" + name, "the readers of the %s use keys %s" % (name, sorted(ks)))
            continue
        k = ks.pop()
        bad = [s for s in wkeys.get(k, []) if not any(name.split()[0] in q for q in names_in(I, s))]
        # the bytes encrypted with this key must come from this table's entries
        for kk, ss in wkeys.items():
            for s in ss:
                fields = entry_fields(I, s)
                if fields and (ty.rsplit("::", 1)[1].replace("Table", "Entry") in fields) != (kk == k):
                    ctx.violation("table-key-mismatch:" + name, "%s: entries of %s are encrypted with the key of %r" % (s.frame.path, sorted(fields), kk[0]), s.sp)


def names_in(I, s):
    return [s.frame.path]


def entry_fields(I, s):
    """struct names whose fields make up the encrypted bytes"""
    out = set()
    for i, v in enumerate(s.vals):
        for x in content_all(I, I.dv(s.st, v)):
            if x.op == "f" and re.match(r"^(HashEntry|BlockEntry)\.", str(x.a[1])):
                out.add(str(x.a[1]).split(".")[0])
    return out


def direct_calls(prog, p):
    cg, _ = prog.callgraph()
    return {c for (c, sp, bb) in cg.get(p, [])}


def table_key(I, t):
    ls = leaves(I, t)
    if len(ls) != 1 or not is_hash(ls[0]):
        if len(ls) == 1 and is_c(ls[0]):
            return ("const", ls[0].a[0])
        return None
    a = ls[0].a[-1]
    n = strip(a[0])
    if n.op == "s" and is_c(a[1]):
        return (str(n.a[0]), a[1].a[0])
    return None
