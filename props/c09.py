import re
from common import *
from ffi import *
from terms import Interp, show, subterms, path_facts, Intervals, mk, add, C, lt, is_c, lin_parts, mul
from factesp import FactEsp
from mir import Graph
from c08 import strip, raw_params, param_of, offset_of, relevant_fn, deref_sites

RULE = ("Bounds analysis of every write through an argument pointer of an exported C function (callees inlined, path-sensitive facts): a write at the "
        "argument's declared type is within the caller's contract; a write at another type needs, on every path, that the size argument following the "
        "buffer is at least the size of that type; a block copy into the buffer needs its length bounded by that size argument and equal to the length of the "
        "source slice.  SFileReadFile additionally copies from the current position, reports exactly the copied length and advances by it.")

SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8, "bool": 1,
         "core::ffi::c_char": 1}
COPY = re.compile(r"^core::(ptr|intrinsics)::(copy_nonoverlapping|copy)$|ptr::.*::(copy_to|copy_from|copy_to_nonoverlapping|copy_from_nonoverlapping)$")
WRITEFN = re.compile(r"ptr::(write|write_unaligned|write_bytes|write_volatile|replace|swap)$|slice::raw::from_raw_parts_mut$|ptr::mut_ptr::.*::(write|write_unaligned|write_bytes)$")


def pointee(ty):
    return re.sub(r"^\*(mut|const) ", "", ty)


def size_of(ty):
    if ty.startswith("*"):
        return 8
    m = re.match(r"^\[(.*); (\d+)(_usize)?\]$", ty)
    if m:
        s = size_of(m.group(1))
        return s * int(m.group(2)) if s else None
    return SIZES.get(ty)


def size_param(fn, i):
    """the integer parameter that directly follows the buffer"""
    j = i + 1
    if j <= fn["argc"] and fn["locals"][j]["ty"] in ("u32", "usize", "u64", "i32"):
        return j
    return None


def bounded(I, n, size, fs):
    """n <= size"""
    n = unc(n)
    if n is size:
        return True
    if n.op == "min" and any(bounded(I, x, size, fs) for x in n.a):
        return True
    if n.op == "lin" and n.a[0] == 0:            # min(s + size, ..) - s
        pos = [x for x, k in n.a[1] if k == 1]
        neg = [x for x, k in n.a[1] if k == -1]
        if len(pos) == len(neg) == 1 and len(n.a[1]) == 2 and pos[0].op == "min":
            for x in pos[0].a:
                y = add(*x.a) if x.op == "saturating_add" else x
                if uncs(add(y, neg[0], -1)) is size:
                    return True
    if n.op == "lin" and n.a[0] > 0 and len(n.a[1]) == 1 and n.a[1][0][1] == 1:    # x + 1 <= size: x < size
        x0 = n.a[1][0][0]
        for c, pol in fs:
            if c.op == "lt" and n.a[0] == 1 and (pol and unc(c.a[0]) is unc(x0) and unc(c.a[1]) is size):
                return True
    b = Intervals.bounds(fs)
    if is_c(n):
        lo = b.get(size, [0, None])[0]
        return n.a[0] <= lo
    for c, pol in fs:
        if c.op == "lt":
            x, y = unc(c.a[0]), unc(c.a[1])
            if x is size and y is n and not pol:      # not size < n
                return True
            if x is n and y is size and pol:          # n < size
                return True
    return False


def unc(t):
    while t.op == "cast" and str(t.a[0]) in ("usize", "u64", "u32", "i64"):
        t = t.a[1]
    return t


def uncs(t):
    t = unc(t)
    if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
        return unc(t.a[1][0][0])
    return t


def len_term(I, src):
    """length of the object a source pointer points to"""
    t = src
    while t.op in ("pure", "call") and re.search(r"as_ptr|as_mut_ptr", str(t.a[0])):
        inner = t.a[-1]
        if isinstance(inner, tuple) and inner:
            inner = inner[0]
        if re.search(r"CStr|CString", str(t.a[0])):
            return ("cstr", inner)
        t = inner
    return ("slice", t)


def run(ctx):
    prog = ctx.prog
    for p in exported(prog):
        fn = prog.fns[p]
        rp = raw_params(fn)
        if not rp:
            continue
        g = ffi_graph(prog, p)
        ctx.functions |= {fr.path for fr in g.frames}
        I = Interp(g)
        ptr_facts = relevant_fn(fn)
        obl, nuls, strs = [], [], []
        for nid, t, ty, how, x, fr, st in deref_sites(I, g):
            q = param_of(t)
            if q is None or how != "write":
                continue
            ctx.count("pointer_writes")
            decl = rp.get(q.a[0])
            if decl is None:
                continue
            off = offset_of(t)
            if off is not None and is_c(off, 0) and pointee(decl) == pointee(ty) and not re.match(r"^(core::ffi::|libc::.*)?c_void$", pointee(decl)):
                ctx.count("typed_out_parameters")
                continue
            sz = size_of(pointee(ty))
            if off is None:
                sz = None
            elif not is_c(off, 0) and sz is not None:
                obl.append((nid, q, None, add(mul(off, C(sz)), C(sz)), x.get("sp"), "a write at offset %s" % show(off)[:60]))
                if I.simp(I.rvalue(st, fr, x["v"], x.get("sp"))) is C(0):
                    nuls.append((nid, q, off))
                continue
            obl.append((nid, q, sz, None, x.get("sp"), "a write of type %s" % pointee(ty)))
        for s in I.sites():
            if COPY.search(s.fn):
                dst = s.vals[1] if re.search(r"(ptr|intrinsics)::copy", s.fn) else s.vals[0]
                src = s.vals[0] if re.search(r"(ptr|intrinsics)::copy", s.fn) else s.vals[1]
                n = s.vals[2]
                q = param_of(dst)
                if q is None:
                    continue
                ctx.count("block_copies")
                ga = (s.k.get("ga") or ["?"])[0]
                esz = size_of(ga)
                if esz != 1:
                    ctx.violation("copy-unit:%s" % p, "%s copies elements of type %s into a byte buffer" % (p, ga), s.sp)
                # source length
                sv = s.vals[0 if src is s.vals[0] else 1]
                ok = src_ok(I, sv, n)
                if not ok:
                    ctx.violation("copy-source:%s" % p, "%s copies %s bytes from a source whose length is not shown to be that: %s" % (p, show(n)[:80], show(sv)[:100]), s.sp)
                if pointee(rp.get(q.a[0]) or "") in ("i8", "u8", "core::ffi::c_char") and not terminated(sv, n):
                    strs.append((s, q, n))
                off = offset_of(dst)
                n = add(n, off) if off is not None else None
                if size_param(fn, q.a[0]):
                    obl.append((s.node, q, None, n, s.sp, "a copy of %s bytes" % show(n)[:60]))
                else:
                    ctx.count("copies_without_size_argument")
            elif WRITEFN.search(s.fn):
                q = param_of(s.vals[0])
                if q is None:
                    continue
                decl = rp.get(q.a[0])
                if decl is None:
                    continue
                ga = (s.k.get("ga") or ["?"])[0]
                ctx.count("pointer_writes")
                if "from_raw_parts" in s.fn or "write_bytes" in s.fn:
                    n = s.vals[1] if "from_raw" in s.fn else s.vals[2]
                    obl.append((s.node, q, None, n, s.sp, "%s of %s elements" % (s.fn, show(n)[:60])))
                elif pointee(decl) != ga:
                    obl.append((s.node, q, size_of(ga), None, s.sp, "a write of type %s" % ga))
        for s, q, n in strs:
            after = {nid for nid, q2, off in nuls if q2 is q and uncs(off) is uncs(n)}
            if g.forward([s.node], stop=lambda i: i in after) & set(g.returns):
                ctx.violation("no-nul:%s:%s" % (p, q.a[1]), "%s copies a string into `%s` without its terminating NUL" % (p, q.a[1]), s.sp)
        if obl:
            def rel(c, sizes={mk("param", j, fn["locals"][j].get("n") or "") for j in range(1, fn["argc"] + 1)}):
                return any(x in sizes for x in subterms(c)) and c.op in ("lt", "eq", "isnull")
            pf = path_facts(I, {o[0] for o in obl}, rel)
            if pf is None:
                ctx.violation("undecided:" + p, "too many paths", fn["span"])
                continue
            for nid, q, sz, n, sp, what in obl:
                ctx.count("bounded_writes")
                j = size_param(fn, q.a[0])
                if j is None:
                    ctx.violation("no-size:%s:%s" % (p, q.a[1]), "%s writes through `%s` at a type other than its own and has no size argument to bound it" % (p, q.a[1]), sp)
                    continue
                size = mk("param", j, fn["locals"][j].get("n") or "")
                need = C(sz) if sz is not None else n
                if sz is None and n is None:
                    ctx.violation("unknown-size:%s" % p, "%s: %s through `%s` has no known size" % (p, what, q.a[1]), sp)
                    continue
                for fs in pf[nid]:
                    if not bounded(I, need, size, fs):
                        ctx.violation("overflow:%s:%s" % (p, q.a[1]), "%s: %s through `%s` is not bounded by `%s` on some path" % (p, what, q.a[1], size.a[1]), sp,
                                      ["path condition: " + ", ".join(("" if pol else "not ") + show(c)[:60] for c, pol in fs)])
                        break
                else:
                    ctx.sample("%s: %s through `%s` <= `%s`" % (p, what, q.a[1], size.a[1]))
    reader(ctx)
    outputs(ctx, ("storm::SFileReadFile",))
    ctx.floor("bounded_writes", 3)
    ctx.floor("block_copies", 1)


def terminated(sv, n):
    if any(x.op == "slice" and not is_c(x.a[2], None) and "with_nul" in show(x.a[0], 0)[:4000] and hasattr(x.a[2], "op") and x.a[2].op != "len" for x in subterms(sv)):
        return False          # a part of the string
    return "with_nul" in show(sv, 0)[:4000] or "with_nul" in show(n, 0)[:4000] or any(x.op in ("call", "pure") and str(x.a[0]).endswith("CString::new") for x in subterms(sv)) and n.op != "len"


def src_ok(I, sv, n):
    kind, obj = len_term(I, sv)
    n = unc(n)
    if kind == "cstr":
        # n must be the length with the terminator of the same string
        return "with_nul" in show(n, 0)[:2000] and any(x is deref(obj) or x is obj for x in subterms(n))
    o = deref(obj)
    if any(str(x.a[0]).endswith(("CString::new", "CString::from_vec_unchecked")) for x in subterms(o) if x.op in ("pure", "call") and x.a) and "with_nul" not in show(o):
        # a C string is copied with its terminator
        if n.op == "len":
            m = deref(n.a[0])
            return m.op in ("pure", "call") and "with_nul" in str(m.a[0]) and any(y is o for y in subterms(m))
        return n is add(I.len_of(o), C(1))
    l = I.len_of(o)
    if l is n:
        return True
    if o.op == "slice":
        base, lo, hi = o.a
        if hasattr(hi, "op") and add(hi, lo, -1) is n:
            return True
    if n.op == "min" and l in n.a:
        return True
    if n.op in ("len",) and deref(n.a[0]) is o:
        return True
    return mk("len", o) is n


def deref(t):
    while t.op in ("&", "*"):
        t = t.a[0]
    return t


class Outs(FactEsp):
    """client state: arguments written through so far; string copies that are not terminated yet"""
    max_states = 200000

    def __init__(self, g, I, params, at, setters):
        self.params = params
        super().__init__(g, I)
        self.at, self.setters = at, setters
        self.rets = []

    def relevant(self, c):
        if c.op not in ("isnull", "lt", "eq") or any(x.op == "phi" and x.a[0] in self.I.heads for x in subterms(c)):
            return False
        return any(x in self.params or x.op == "len" for x in subterms(c))

    def on_enter(self, env, ust, node):
        q = self.at.get(node.id)
        if q:
            ust = (ust[0], ust[1], ust[2] | q)
        return ust

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def write_nodes(I, g, rp):
    """node -> arguments written through there"""
    at = {}
    for nid, t, ty, how, x, fr, st in deref_sites(I, g):
        q = param_of(t)
        if q is not None and how == "write" and q.a[0] in rp:
            at.setdefault(nid, set()).add(q.a[0])
    for nid, fr, x, st in I.steps():
        loc = I.loc_of(st, fr, x["p"])
        if loc[0][0] == "M":
            q = param_of(loc[0][1])
            if q is not None and q.a[0] in rp:
                at.setdefault(nid, set()).add(q.a[0])
    for s in I.sites():
        ts = []
        if COPY.search(s.fn):
            ts = [s.vals[1] if re.search(r"(ptr|intrinsics)::copy", s.fn) else s.vals[0]]
        elif WRITEFN.search(s.fn):
            ts = s.vals[:1]
        for t in ts:
            q = param_of(t)
            if q is not None and q.a[0] in rp:
                at.setdefault(s.node, set()).add(q.a[0])
    return at


def outputs(ctx, only=None):
    """success means that every output argument was filled (or is NULL, or there was nothing to fill it with)"""
    from c10 import setters_of
    prog = ctx.prog
    setters = setters_of(prog)
    for p in exported(prog):
        fn = prog.fns[p]
        ty = fn["locals"][0]["ty"]
        if ty not in ("bool", "u32") or only and p not in only:
            continue
        rp = raw_params(fn)
        if not rp:
            continue
        g = Graph(prog, p, inline=lambda q, fr: q.startswith("storm::") and q not in setters and not q.endswith("::SFileGetLastError"))
        I = Interp(g)
        at = write_nodes(I, g, rp)
        outs = set().union(*at.values()) if at else set()
        if not outs:
            continue
        params = {mk("param", j, fn["locals"][j].get("n") or "") for j in range(1, fn["argc"] + 1)}
        e = Outs(g, I, params, {k: frozenset(v) for k, v in at.items()}, setters)
        e.start(frozenset())
        if e.exceeded:
            ctx.violation("undecided:" + p, "too many paths in %s" % p, fn["span"])
            continue
        for rv, ust, cur in e.rets:
            val = rv[1] if rv is not None and rv[0] == "i" else None
            if ty == "bool" and val == 0 or ty == "u32" and val == 0xFFFFFFFF:
                continue
            ctx.count("success_returns")
            for j in outs - set(ust[2]):
                q = mk("param", j, fn["locals"][j].get("n") or "")
                if any(c.op == "isnull" and pol and param_of(c.a[0]) is q for c, pol in ust[0]):
                    continue
                sz = size_param(fn, j)
                if sz and nothing(ust[0], mk("param", sz, fn["locals"][sz].get("n") or "")):
                    continue
                ctx.violation("unfilled:%s:%s" % (p, q.a[1]), "%s can report success without having written through `%s`" % (p, q.a[1]), fn["span"], e.trail(cur))
    ctx.floor("success_returns", 1 if only else 8)


def nothing(facts, size):
    """the number of bytes to deliver is known to be zero: nothing asked for, or nothing left"""
    def amount(t):
        return any(x is size for x in subterms(t)) or t.op in ("saturating_sub", "lin", "len") and any(x.op == "len" for x in subterms(t))
    for c, pol in facts:
        if c.op == "eq" and pol and (any(is_c(x, 0) for x in c.a) and any(amount(x) for x in c.a) or any(x.op == "len" for x in c.a) and any(x.op == "f" for x in c.a)):
            return True
        if c.op == "lt" and not pol and (is_c(c.a[0], 0) and amount(c.a[1]) or c.a[0].op == "f" and c.a[1].op == "len"):
            return True
        if c.op == "lt" and pol and (is_c(c.a[1], 1) and amount(c.a[0]) or c.a[0].op == "len" and c.a[1].op == "f"):
            return True
    return False


def reader(ctx):
    prog = ctx.prog
    p = "storm::SFileReadFile"
    if not ctx.need(p):
        return
    fn = prog.fns[p]
    g = ffi_graph(prog, p)
    I = Interp(g)
    copies = []
    for s in I.sites():
        if COPY.search(s.fn):
            kind, obj = len_term(I, s.vals[0])
            copies.append((s, deref(obj), unc(s.vals[2])))
        elif re.search(r"::(copy_from_slice|clone_from_slice)$", s.fn) and any(x.op == "param" for x in subterms(s.vals[0])):
            o = deref(s.vals[1])
            copies.append((s, o, unc(I.len_of(o))))
    if len(copies) != 1:
        ctx.violation("read-copies", "SFileReadFile copies in %d places; exactly one block copy is understood" % len(copies), fn["span"])
        return
    s, o, n = copies[0]
    lo = None
    while o.op == "slice":
        lo = o.a[1] if lo is None else add(lo, o.a[1])
        if o.a[0].op != "slice":
            break
        o = o.a[0]
    if o.op != "slice":
        ctx.violation("read-slice", "SFileReadFile copies from %s, not from a bounds-checked part of the file's data" % show(o)[:100], s.sp)
        return
    base = o.a[0]
    # the position field: same owner as the data; clamped to the data or not
    start = lo
    if lo.op == "min":
        fs = [x for x in lo.a if x.op == "f"]
        ls = [x for x in lo.a if x is I.len_of(base)]
        if len(fs) == len(ls) == 1:
            lo = fs[0]
    if lo.op != "f" or base.op != "f" or lo.a[0] is not base.a[0]:
        ctx.violation("read-position", "SFileReadFile copies from offset %s, not from the handle's current position" % show(lo)[:100], s.sp)
        return
    adv = []
    rep = []
    for nid, fr, x, st in I.steps():
        loc = I.loc_of(st, fr, x["p"])
        val = None
        if loc[0][0] == "M" and loc[1]:
            old = I.simp(I.read(st, loc))
            val = I.simp(I.rvalue(st, fr, x["v"], x.get("sp")))
            if old is lo:
                adv.append((nid, val, x.get("sp")))
        if loc[0][0] == "M" and not loc[1]:
            q = param_of(loc[0][1])
            if q is not None and pointee(fn["locals"][q.a[0]]["ty"]) == "u32":
                val = I.simp(I.rvalue(st, fr, x["v"], x.get("sp")))
                rep.append((nid, val, x.get("sp")))
    ctx.count("read_obligations", 1 + len(adv) + len(rep))
    want = add(start, n)
    if not adv:
        ctx.violation("read-no-advance", "SFileReadFile never advances the position", s.sp)
    for nid, v, sp in adv:
        if unc(v) is not want:
            ctx.violation("read-advance", "SFileReadFile advances the position to %s, not by the number of bytes copied" % show(v)[:120], sp)
    advn = {a[0] for a in adv}
    before = g.forward([g.rpo[0]], stop=lambda i: i in advn)
    if s.node in before and g.forward([s.node], stop=lambda i: i in advn) & set(g.returns):
        ctx.violation("read-advance-path", "a path returns after copying without advancing the position", s.sp)
    if any(g.forward([w for _, w in g.nodes[a].succ]) & advn for a in advn):
        ctx.violation("read-advance-twice", "the position can be advanced twice for one copy", s.sp)
    repn = {r[0] for r in rep}
    for nid, v, sp in rep:
        v = unc(v)
        st = I.at_term(nid)
        on_copy = nid in g.forward([s.node]) or s.node in g.forward([nid])
        z = is_c(v, 0) and (not on_copy)
        if not (v is n or z):
            ctx.violation("read-count", "SFileReadFile reports %s bytes read, not the number of bytes copied" % show(v)[:80], sp)
    if not rep:
        ctx.violation("read-no-count", "SFileReadFile never reports the number of bytes read", fn["span"])
