"""How a file is cut into sectors, on both sides: number of sectors, extent of each, offsets recorded, sizes expected.
Arithmetic is compared as polynomials over N (number of sectors), SS (sector size), FS (file size), i (sector index) and LEN (bytes
gathered so far); expressions outside of that are left undecided and counted, never reported."""
import re
from common import *
from filefmt import *
from factesp import FactEsp, natural_loops
from terms import lin_parts
from mir import RESULT, OPTION, ERR

NEXT = re.compile(r"Iterator.*>?::next$")


def poly_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def poly_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            x = tuple(sorted(m + n, key=str))
            r[x] = r.get(x, 0) + c * d
    return {m: c for m, c in r.items() if c}


FS, SS, N, IX, LEN, CS = ({(x,): 1} for x in ("FS", "SS", "N", "i", "LEN", "CS"))
ONE = {(): 1}


def K(p, k):
    return {m: c * k for m, c in p.items()}


class Arith:
    def __init__(self, I, is_fs, is_ss, is_out=lambda t: False, is_cs=lambda t: False):
        self.I, self.is_fs, self.is_ss, self.is_out, self.is_cs = I, is_fs, is_ss, is_out, is_cs

    def atom(self, t):
        return {(t,): 1}

    def index(self, t):
        """loop counter of a counted loop -> True"""
        x, d = t, []
        while x.op == "f":
            d.append(x.a[1])
            x = x.a[0]
        if x.op != "dc" or x.a[0].op != "next":
            return False
        ch = x.a[0].a[1]
        if ch.op == "phi":
            ins = [v for v in self.I.phi_in.get(ch, {}).values() if v is not ch and not any(y is ch for y in subterms(v))]
            ch = ins[0] if len(ins) == 1 else ch
        if ch.op == "agg" and "Range" in str(ch.a[1]):
            return len(d) == 1 and is_c(ch.a[3][0], 0)
        while ch.op in ("call", "pure", "take") or str(ch.op) == "enumerate":
            name = ch.op if ch.op not in ("call", "pure") else str(ch.a[0]).rsplit("::", 1)[-1]
            if name == "enumerate":
                return len(d) == 2 and d[0] in (0, "0")
            if name != "take":
                return False
            ch = (ch.a[0] if ch.op == "take" else (ch.a[2] if ch.op == "call" else ch.a[1])[0])
        return False

    def poly(self, t):
        return push_min(self.poly0(t))

    def poly0(self, t):
        t = self.I.simp(t)
        if t.op == "c":
            return {(): t.a[0]} if t.a[0] else {}
        if self.is_cs(t):
            return CS
        if t.op == "phi" and t.a[0] not in getattr(self.I, "heads", ()) and t in self.I.phi_in:
            vs = [self.I.simp(v) for v in self.I.phi_in[t].values()]
            if not any(v is t or v.op == "phi" for v in vs):
                ps = {freeze(self.poly(v)) for v in vs}
                if ps == {freeze({("floor",): 1}), freeze({("floor",): 1, (): 1})}:
                    return N       # rounded up by hand
        if self.is_fs(t):
            return FS
        if self.is_ss(t):
            return SS
        if t.op == "lin":
            r = {(): t.a[0]} if t.a[0] else {}
            for x, k in t.a[1]:
                r = poly_add(r, self.poly(x), k)
            return r
        if t.op == "mul":
            r = ONE
            for x in t.a:
                r = poly_mul(r, self.poly(x))
            return r
        if t.op == "cast":
            return self.poly(t.a[-1])
        if t.op in ("&", "*") and t.a[0].op in ("f", "phi", "lin", "c"):
            return self.poly(t.a[0])
        if t.op == "div_ceil":
            a, b = self.poly(t.a[0]), self.poly(t.a[1])
            if a == FS and b == SS:
                return N
            return self.atom(t)
        if t.op == "div":
            a, b = self.poly(t.a[0]), self.poly(t.a[1])
            if a == poly_add(poly_add(FS, SS), ONE, -1) and b == SS:
                return N
            if a == FS and b == SS:
                return {("floor",): 1}
            return self.atom(t)
        if t.op == "len":
            if self.is_out(t.a[0]):
                return LEN
            n = self.I.len_of(t.a[0])
            if n is not t and n.op != "len":
                return self.poly(n)
            return self.atom(t)
        if self.index(t):
            return IX
        if t.op in ("min", "max"):
            return {(t.op,) + tuple(sorted((freeze(self.poly(x)) for x in t.a), key=str)): 1}
        return self.atom(t)

    def known(self, p):
        """only quantities the comparison understands"""
        def ok(x):
            if isinstance(x, str):
                return x in ("FS", "SS", "N", "i", "LEN", "floor", "min", "max", "CS")
            if isinstance(x, tuple):      # frozen polynomial inside min
                return all(ok(y) for m, _ in x for y in m)
            return False
        return all(ok(x) for m in p for x in m)


def push_min(p):
    """p + min(a, b) = min(p + a, p + b)"""
    ms = [m for m, c in p.items() if m and m[0] in ("min", "max") and c == 1 and len(m) > 1 and isinstance(m[1], tuple)]
    if len(ms) == 1 and len(p) > 1:
        rest = {m: c for m, c in p.items() if m is not ms[0]}
        return {(ms[0][0],) + tuple(sorted((freeze(poly_add(dict(x), rest)) for x in ms[0][1:]), key=str)): 1}
    return p


def freeze(p):
    return tuple(sorted(p.items(), key=str))


def minof(*ps):
    return {("min",) + tuple(sorted((freeze(p) for p in ps), key=str)): 1}


def showp(p):
    def one(m):
        if m and m[0] in ("min", "max"):
            return m[0] + "(%s)" % ", ".join(showp(dict(x)) for x in m[1:])
        return "*".join(str(x) if isinstance(x, str) else "?" for x in m) or "1"
    names = {"N": "number of sectors", "FS": "file size", "SS": "sector size", "LEN": "bytes so far", "floor": "file size / sector size"}
    s = " + ".join(("%s%s" % ("" if c == 1 and m else str(c) + ("*" if m else ""), one(m) if m else "")) for m, c in sorted(p.items(), key=str)) or "0"
    return s


def alternatives(I, t, cap=8, A=None):
    """values a term can have, merges of paths (not of iterations) taken apart"""
    heads = getattr(I, "heads", ())
    phis = [x for x in subterms(t) if x.op == "phi" and x.a[0] not in heads and x in I.phi_in and I.phi_in[x] and not inside_len(t, x) and not (A and A.poly(x) == N)]
    if not phis:
        return [t]
    p = phis[0]
    out = []
    for v in dict.fromkeys(I.phi_in[p].values()):
        if any(y is p for y in subterms(v)):
            continue
        for r in alternatives(I, I.simp(subst(t, p, v)), cap, A):
            if r not in out:
                out.append(r)
        if len(out) > cap:
            return [t]
    return out


def inside_len(t, p):
    """p occurs only below a length: its identity, not its value, matters"""
    def free(x):
        if x is p:
            return True
        if x.op in ("len", "idx", "slice", "next", "out", "call"):
            return False
        return any(free(y) for y in flat(x.a) if hasattr(y, "op"))
    return not free(t)


def subst(t, p, v):
    if t is p:
        return v
    if not any(x is p for x in subterms(t)):
        return t

    def go(y):
        if hasattr(y, "op"):
            return subst(y, p, v)
        if isinstance(y, tuple):
            return tuple(go(z) for z in y)
        return y
    if t.op == "lin":
        from terms import add, mul, C
        r = C(t.a[0])
        for x, k in t.a[1]:
            r = add(r, mul(subst(x, p, v), C(k)))
        return r
    return mk(t.op, *[go(y) for y in t.a])


class Rounds(FactEsp):
    """one loop over the sectors: every completed iteration adds its sector to the result exactly once, success only after the last"""
    max_states = 300000
    force_loops = True

    def __init__(self, g, I, nxt, adds, ends=()):
        super().__init__(g, I)
        self.nxt, self.adds, self.ends = nxt, adds, ends
        self.bad = {}

    def relevant(self, c):
        return False

    def on_enter(self, env, ust, node):
        r = super().on_enter(env, ust, node)
        if r == "STOP" or node.id != self.nxt or not r[0]:
            return r
        # the next round tests its own item
        if not hasattr(self, "body"):
            bs = [b for b in self.loops.values() if self.nxt in b]
            self.body = min(bs, key=len) if bs else set()
        return (frozenset(f for f in r[0] if not self.varies(f[0])),) + tuple(r[1:])

    def varies(self, t):
        return any(x.op in ("call", "next", "phi", "out", "cloarg") and (x.a[1] if x.op == "call" else x.a[0]) in self.body for x in subterms(t))

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if node.id == self.nxt:
            if cl == 0:
                self.bad.setdefault("skipped", self.cur)
            return [(("v", OPTION, 0, ()), "done"), (("v", OPTION, 1, ()), 0)]
        if node.id in self.adds:
            if cl == 1:
                self.bad.setdefault("twice", self.cur)
            return [(None, 1 if cl in (0, 1) else cl)]
        if node.id in self.ends and cl in (0, 1):
            self.bad.setdefault("partial", self.cur)
        return None

    def on_return(self, env, ust, node, rv):
        if rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR:
            return
        if ust[2] in (0, 1):
            self.bad.setdefault("partial", self.cur)


def loop_at(I, g, node):
    """(next node, next term chain) of the innermost loop around a node, if driven by an iterator"""
    loops = natural_loops(g)
    inner = sorted((h for h, b in loops.items() if node in b), key=lambda h: len(loops[h]))
    for h in inner[:1]:
        body = loops[h]
        deeper = [b for h2, b in loops.items() if h2 != h and h2 in body]
        cand = [s for s in I.sites() if s.node in body and NEXT.search(s.fn) and not any(s.node in b for b in deeper if node not in b)]
        if len(cand) == 1:
            return cand[0], body
        return None, body
    return None, None


def chain_bound(I, A, s):
    """number of rounds of the loop driven by a next() site, as a polynomial, or None"""
    ch = I.dv(s.st, s.vals[0])
    for _ in range(6):
        while ch.op in ("&", "*"):
            ch = ch.a[0]
        if ch.op == "phi":
            ins = [v for v in I.phi_in.get(ch, {}).values() if v is not ch and not any(y is ch for y in subterms(v))]
            if len(ins) != 1:
                return None
            ch = ins[0]
            continue
        if ch.op == "agg" and re.search(r"Range$", str(ch.a[1])):
            return poly_add(A.poly(ch.a[3][1]), A.poly(ch.a[3][0]), -1)
        name = ch.op if ch.op not in ("call", "pure") else str(ch.a[0]).rsplit("::", 1)[-1]
        args = ch.a if ch.op not in ("call", "pure") else (ch.a[2] if ch.op == "call" else ch.a[1])
        if name == "take":
            return A.poly(args[1])
        if name == "enumerate":
            ch = args[0]
            continue
        return None
    return None


def exts(I, body):
    """calls in a loop that add bytes to a vector: node -> (term before, added)"""
    out = {}
    for s in I.sites():
        if s.node in body and s.vals and re.search(r"::(extend_from_slice|extend|append|write_all|write|push_str|extend_from_within)$", s.fn):
            v = s.vals[0]
            v = I.dv(s.st, v)
            if v.op == "ext":
                out[s.node] = (v.a[0], v.a[1], s)
    return out


def reader(ctx, e, full=True):
    """e: c30.R"""
    I, g = e.I, e.g
    sp0 = ctx.prog.fns[g.root.path]["span"]
    is_fs = lambda t: t.op == "f" and str(t.a[1]) in ("FileInfo.file_size", "BlockEntry.file_size")
    is_ss = lambda t: t.op == "shl" and is_c(t.a[0], 512) or t.op in ("call", "pure") and str(t.a[0]).endswith("::sector_size") or t.op == "f" and str(t.a[1]).endswith(".sector_size")
    sect = [n for n, k in e.ioc.items() if k == "sector"]
    for n in sect:
        nxt, body = loop_at(I, g, n)
        if body is None:
            ctx.count("sector_loops_undecided")
            continue
        gathered = exts(I, body)
        outs = {b for b, _, _ in gathered.values()}
        cs = csize_of(I, next(x for x in I.sites() if x.node == n))
        A = Arith(I, is_fs, is_ss, lambda t: strip(t) in outs, lambda t, n=n, cs=cs: t is cs or t.op == "len" and buffer_of(I, t.a[0], n))
        if full:
            lengths(ctx, e, I, g, A, n, nxt, body)
        if nxt is None or not gathered:
            ctx.count("sector_loops_undecided")
            continue
        ctx.count("sector_loops")
        r = Rounds(g, I, nxt.node, set(gathered))
        r.start("before")
        if r.exceeded:
            ctx.violation("undecided:sectors", "too many paths through the sector loop", g.span(n))
        say = {"skipped": "a sector can be passed over without adding its content", "twice": "a sector's content can be added twice", "partial": "reading can succeed before the last sector was read"}
        for k, cur in r.bad.items():
            ctx.violation("sectors:" + k, "%s: %s" % (g.nodes[n].frame.path, say[k]), g.span(nxt.node), r.trail(cur))
        # what is added comes from the sector read
        for node, (_, v, s) in gathered.items():
            for a in alternatives(I, v):
                cs = content(I, a)
                src = any(x.op == "out" and x.a[0] in e.ioc for x in cs)
                ctx.count("sector_contents")
                if not src:
                    ctx.violation("sectors:invented", "%s adds %s as a sector's content: it does not come from the archive" % (g.nodes[node].frame.path, show(a)[:100]), g.span(node))
        result(ctx, I, g, outs, A)


def strip(t):
    while t.op in ("&", "*"):
        t = t.a[0]
    return t


def result(ctx, I, g, outs, A):
    """nothing is done to the gathered content afterwards"""
    for s in I.sites():
        if not s.vals or s.node is None:
            continue
        m = re.search(r"Vec(::)?<.*>::(resize|resize_with|truncate|clear|drain|pop|remove|split_off|retain|swap_remove|insert|dedup|push)$", s.fn)
        if not m:
            continue
        if not any(x in outs for x in subterms(s.vals[0])) and strip(s.vals[0]) not in outs:
            base = [x for x in content(I, s.vals[0]) if x in outs]
            if not base:
                continue
        if m.group(2) == "truncate" and A.poly(s.vals[1]) == FS:
            continue
        ctx.violation("sectors:altered:" + m.group(2), "%s changes the content of a file after its sectors were read (%s)" % (g.nodes[s.node].frame.path, m.group(2)), g.span(s.node))


def lengths(ctx, e, I, g, A, n, nxt, body):
    sites = {s.node: s for s in I.sites()}

    def compare(key, what, got, want, node):
        if got is None or not A.known(got):
            ctx.count("sector_terms_undecided")
            return
        ctx.count("sector_terms")
        if got not in want:
            ctx.violation("sectors:" + key, "%s: %s is %s; expected %s" % (g.nodes[node].frame.path, what, showp(got), " or ".join(showp(w) for w in want)), g.span(node))
    if nxt is not None:
        compare("rounds", "the number of sectors read", chain_bound(I, A, nxt), [N], nxt.node)
    feeding = {x.a[0] for x in content(I, csize_of(I, sites[n])) if x.op == "out"}
    for node, kind in e.ioc.items():
        s = sites[node]
        if kind == "tab" and node not in feeding and feeding & {m for m, k in e.ioc.items() if k == "tab"}:
            kind = "crctab"
        L = A.poly(I.len_of(strip(s.vals[1])))
        if kind == "tab":
            compare("table-size", "the size of the sector table", L, [poly_add(K(N, 4), K(ONE, 4))], node)
        elif kind == "crctab":
            compare("crc-size", "the size of the checksum table", L, [K(N, 4)], node)
        elif kind == "sector" and node == n:
            t = I.simp(I.len_of(strip(s.vals[1])))
            ix = [x for x in subterms(t) if x.op == "idx"]
            if t.op == "lin" and len(ix) == 2 and len(t.a[1]) == 2:
                d = {k: A.poly(x.a[1]) for x, k in t.a[1] if x.op == "idx"}
                ctx.count("sector_terms")
                pair = t.a[0] == 0 and d.get(-1) == {} and d.get(1) == ONE and all(any(y.op == "next" for y in subterms(x.a[0])) for x in ix)
                if not pair and (t.a[0] != 0 or d.get(-1) != IX or d.get(1) != poly_add(IX, ONE)):
                    if all(A.known(v) for v in d.values()):
                        ctx.violation("sectors:stored-size", "%s reads %s bytes of a sector; expected offset[i+1] - offset[i]" % (g.nodes[node].frame.path, show(t)[:100]), g.span(node))
    want = [minof(SS, poly_add(FS, LEN, -1)), minof(SS, poly_add(FS, poly_mul(IX, SS), -1))]
    csize = I.simp(I.len_of(strip(sites[n].vals[1])))
    for s in sites.values():
        if s.fn in e.decomp and s.node in body and len(s.vals) >= 3:
            compare("expected", "the expected size of a sector", A.poly(s.vals[2]), want, s.node)
            branch(ctx, I, g, A, s, csize, s.vals[2], True)
    adds = set(exts(I, body))
    if nxt is not None and adds:
        raw_test(ctx, I, g, A, e, nxt, adds, csize, want)


def buffer_of(I, t, n):
    """the buffer the sector was read into, possibly deciphered in place"""
    seen, work = set(), [t]
    hit = False
    while work:
        x = strip(work.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_in:
            work.extend(I.phi_in[x].values())
        elif x.op == "out":
            if x.a[0] == n:
                hit = True
            elif len(x.a) > 4 and isinstance(x.a[4], tuple) and x.a[1] < len(x.a[4]):
                work.append(x.a[4][x.a[1]])
            else:
                return False
        else:
            return False
    return hit


def csize_of(I, s):
    return I.simp(I.len_of(strip(s.vals[1])))


class RawTest(FactEsp):
    """a sector added without decompressing it is at least as long as expected"""
    max_states = 300000

    def __init__(self, g, I, nxt, adds, decomp, A):
        self.A = A
        super().__init__(g, I)
        self.nxt, self.adds, self.decomp = nxt, adds, decomp
        self.raw = []

    def cs(self, c):
        return c.op == "lt" and any(uses_cs(self.A.poly(x)) for x in c.a)

    def flag(self, c):
        return c.op == "eq" and any(x.op == "f" and "FileInfo.flags" in str(x.a[1]) for x in subterms(c))

    def relevant(self, c):
        return self.cs(c) or self.flag(c)

    def on_call(self, env, ust, node, fr, t, args):
        if node.id == self.nxt:
            return [(None, (frozenset(f for f in ust[0] if not self.cs(f[0])), ust[1], "new"))]
        k = t["f"].get("k") or {}
        if (k.get("res") or k.get("fn")) in self.decomp:
            return [(None, (ust[0], ust[1], "dec"))]
        if node.id in self.adds and ust[2] == "new":
            self.raw.append((ust[0], self.cur))
        return [(None, ust)]


def raw_test(ctx, I, g, A, e, nxt, adds, csize, want):
    r = RawTest(g, I, nxt.node, adds, e.decomp, A)
    r.start("none")
    if r.exceeded:
        ctx.count("sector_terms_undecided")
        return
    for facts, cur in r.raw:
        ctx.count("sector_branches")
        known = [(c, p) for c, p in facts if c.op == "lt"]
        ok = False
        for c, p in known:
            a, b = A.poly(c.a[0]), A.poly(c.a[1])
            if p:      # a < b  ==  not b < a + 1
                a, b = b, poly_add(a, ONE)
            # not a < b, i.e. a >= b: want csize >= expected
            if any(poly_add(a, b, -1) == poly_add(CS, w, -1) or push_min(poly_add(b, a, -1)) == push_min(poly_add(w, CS, -1)) for w in want):
                ok = True
        contra = [c for c, p in known if any(push_min(poly_add(A.poly(c.a[1]), A.poly(c.a[0]), -1)) == push_min(poly_add(w, CS, -1)) for w in want) and p]
        if not ok and contra:
            ctx.violation("sectors:raw-test", "%s takes a sector stored in fewer bytes than expected for plain data" % g.nodes[nxt.node].frame.path, g.span(nxt.node), r.trail(cur))
            return


def branch(ctx, I, g, A, s, csize, exp, pol):
    """a sector is decompressed exactly if it is stored in fewer bytes than expected"""
    want = poly_add(A.poly(exp), CS, -1)
    rel = []
    for c, p in I.expand(s.st.facts):
        if c.op not in ("lt", "eq"):
            continue
        a, b = A.poly(c.a[0]), A.poly(c.a[1])
        if not uses_cs(a) and not uses_cs(b) or c.op == "eq":
            continue
        if not p:      # not a < b  ==  b < a + 1
            a, b = b, poly_add(a, ONE)
        rel.append(push_min(poly_add(b, a, -1)))
    ctx.count("sector_branches")
    if push_min(want) in rel:
        return
    rel = [r for r in rel if r not in (CS,)]       # not empty
    if any(A.known(r) for r in rel) or not rel:
        ctx.violation("sectors:compressed-test", "%s takes a sector for compressed %s; expected: stored size < expected size" %
                      (g.nodes[s.node].frame.path, "if 0 < " + "; ".join(showp(r) for r in rel) if rel else "without comparing its stored size with the expected size"), g.span(s.node))
    else:
        ctx.count("sector_terms_undecided")


def uses_cs(p):
    return any("CS" in m for m in p)


def mentions(c, t):
    return any(x is t for x in subterms(c))


def writer(ctx, e):
    """e: c30.W"""
    I, g = e.I, e.g
    prog = ctx.prog
    sites = {s.node: s for s in I.sites()}
    roots = e.roots
    loops = natural_loops(g)
    comp = [s for s in I.sites() if s.fn in e.comp and any(s.node in b for b in loops.values())]
    is_fs = lambda t: t.op == "len" and strip(t.a[0]) in whole
    is_ss = lambda t: t.op == "f" and str(t.a[1]).endswith(".sector_size") or t.op == "shl" and is_c(t.a[0], 512) or t.op == "arg" and "sector_size" in str(t.a)
    whole = {strip(r) for r in roots}
    for s in comp:
        nxt, body = loop_at(I, g, s.node)
        gathered = exts(I, body)
        outs = {b for b, _, _ in gathered.values()}
        A = Arith(I, is_fs, is_ss, lambda t: strip(t) in outs)

        def compare(key, what, got, want, node):
            if got is None or not A.known(got):
                ctx.count("sector_terms_undecided")
                return
            ctx.count("sector_terms")
            if got not in want:
                ctx.violation("store-sectors:" + key, "%s: %s is %s; expected %s" % (g.nodes[node].frame.path, what, showp(got), " or ".join(showp(w) for w in want)), g.span(node))
        if nxt is not None:
            compare("rounds", "the number of sectors stored", chain_bound(I, A, nxt), [N], nxt.node)
        # extent of each sector
        for x in sites.values():
            if x.node not in body:
                continue
            for v in x.vals:
                for t in subterms(I.dv(x.st, v)):
                    if t.op == "slice" and strip(t.a[0]) in whole and len(t.a) == 3:
                        a, b = A.poly(t.a[1]), (A.poly(t.a[2]) if hasattr(t.a[2], "op") else None)
                        compare("start", "the start of a sector", a, [poly_mul(IX, SS)], x.node)
                        if b is not None:
                            compare("end", "the end of a sector", b, [minof(FS, poly_add(poly_mul(IX, SS), SS))], x.node)
        # offsets
        D = [poly_add(K(N, 4), K(ONE, 4)), poly_add(K(N, 8), K(ONE, 4))]
        seen = set()
        for node, val in offset_stores(I, g, A, e, sites):
            alts = alternatives(I, val, A=A)
            ds = [poly_add(A.poly(a), LEN, -1) for a in alts]
            if not all(A.known(d) and not any("LEN" in m for m in d) for d in ds):
                if all(A.known(d) for d in ds):
                    ctx.violation("store-sectors:offset", "%s records sector offset %s; expected the size of the tables plus the bytes before the sector" % (g.nodes[node].frame.path, ", ".join(showp(A.poly(a)) for a in alts)), g.span(node))
                else:
                    ctx.count("sector_terms_undecided")
                continue
            ctx.count("sector_offsets")
            bad = [d for d in ds if d not in D]
            if bad or (len(ds) == 1 and has_crc(e) and ds[0] in D):
                ctx.violation("store-sectors:offset", "%s records sector offsets relative to %s; the tables before the data take 4*(N+1), with checksums 4*N more" %
                              (g.nodes[node].frame.path, " or ".join(showp(d) for d in ds)), g.span(node))
        if nxt is None or not gathered:
            ctx.count("sector_loops_undecided")
            continue
        ctx.count("sector_loops")
        ends = {n for n, k in e.kinds.items() if k == "data" and n not in body and sites[n].fn not in e.enc}
        r = Rounds(g, I, nxt.node, set(gathered), ends)
        r.start("before")
        if r.exceeded:
            ctx.violation("undecided:store-sectors", "too many paths through the sector loop", g.span(s.node))
        say = {"skipped": "a sector can be passed over without being stored", "twice": "a sector can be stored twice", "partial": "a file can be stored before all its sectors were gathered"}
        for k, cur in r.bad.items():
            ctx.violation("store-sectors:" + k, "%s: %s" % (g.nodes[s.node].frame.path, say[k]), g.span(nxt.node), r.trail(cur))
        for node, (_, v, x) in gathered.items():
            for a in alternatives(I, v):
                ctx.count("sector_contents")
                if not any(y in whole for y in content(I, a)):
                    ctx.violation("store-sectors:invented", "%s stores %s as a sector's content: it does not come from the file" % (g.nodes[node].frame.path, show(a)[:100]), g.span(node))
    stored_size(ctx, e, I, g, whole, is_fs, is_ss, comp)


def has_crc(e):
    return "crc" in e.kinds.values()


def tab_vectors(I, e, sites):
    """locations / terms of the vector written out as sector table"""
    out = set()
    for n, k in e.kinds.items():
        if k == "tab":
            out |= {x for x in content(I, sites[n].vals[-1] if sites[n].fn in e.enc else sites[n].vals[1])}
    return out


def offset_stores(I, g, A, e, sites):
    tabs = tab_vectors(I, e, sites)
    fills = {x for x in tabs if x.op in ("fill", "phi", "push", "store")}
    done = set()
    for nid, fr, x, st in I.steps():
        if not x.get("v"):
            continue
        p = x["p"]
        if len(p) < 2 or not p[1]:
            continue
        v = I.simp(I.rvalue(st, fr, x["v"], x.get("sp")))
        if v.op != "cast" or "u32" not in str(v.a[0]):
            continue
        loc = I.loc_of(st, fr, p)
        if not any(e_[0] == "i" for e_ in loc[1]) and loc[0][0] != "M":
            continue
        if any(y.op == "len" for y in subterms(v)) or A.known(A.poly(v)):
            yield nid, v
    for s in sites.values():
        if re.search(r"Vec(::)?<.*>::push$", s.fn):
            v = I.simp(s.vals[1])
            if v.op == "cast" and "u32" in str(v.a[0]) and any(y.op == "len" for y in subterms(v)):
                yield s.node, v


def stored_size(ctx, e, I, g, whole, is_fs, is_ss, comp):
    """the size reported for the stored file is that of the bytes written (checksums not counted for single units)"""
    sites = {s.node: s for s in I.sites()}
    loops = natural_loops(g)
    datas = [sites[n] for n, k in e.kinds.items() if k == "data" and sites[n].fn not in e.enc]
    lens = set()
    for s in datas:
        lens.add(freeze({(("L", same(I, s.vals[1])),): 1}))

    class A2(Arith):
        def atom(self, t):
            if t.op == "len":
                return {(("L", same(I, t.a[0])),): 1}
            return {(t,): 1}
    A = A2(I, lambda t: False, is_ss)
    B = Arith(I, is_fs, is_ss)
    for nid in g.returns:
        t = I.read(I.at_term(nid), (("L", g.root.id, 0), ()))
        for a in alternatives(I, t, 60):
            if a.op != "agg" or a.a[2] != 0:
                continue
            tup = a.a[3][0]
            if tup.op != "agg" or len(tup.a[3]) != 2:
                ctx.count("sector_terms_undecided")
                continue
            size = tup.a[3][0]
            for v in alternatives(I, size):
                v = bare(I.simp(v))
                mx = [x for x in subterms(v) if x.op in ("max", "min", "saturating_sub", "and", "or")]
                parts = lin_parts(v)
                ls = [x for x in parts[1] if x.op == "len"]
                ctx.count("stored_sizes")
                if mx and not ls:
                    ctx.violation("stored-size", "%s reports %s as the size of the stored data; expected the number of bytes written" % (g.root.path, show(v)[:100]), ctx.prog.fns[g.root.path]["span"])
                    continue
                if len(ls) != 1 or parts[1][ls[0]] != 1:
                    ctx.count("sector_terms_undecided")
                    continue
                rest = poly_add(B.poly(v), B.poly(ls[0]), -1)
                if not B.known(rest) or any("floor" in m for m in rest):      # one half of a division rounded by hand
                    ctx.count("sector_terms_undecided")
                    continue
                key = freeze({(("L", same(I, ls[0].a[0])),): 1})
                if key not in lens:
                    ctx.count("sector_terms_undecided")
                    continue
                if rest not in ({}, poly_add(K(N, 4), K(ONE, 4)), poly_add(K(N, 8), K(ONE, 4))):
                    ctx.violation("stored-size", "%s reports the length of the data plus %s as stored size; expected nothing for single units, 4*(N+1) for sectored files" % (g.root.path, showp(rest)), ctx.prog.fns[g.root.path]["span"])


def bare(t):
    while t.op in ("&", "*", "cast"):
        t = t.a[-1] if t.op == "cast" else t.a[0]
    return t


def same(I, t):
    return strip(I.simp(t))
