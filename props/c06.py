"""C06: a signature is reported as valid only if it is."""
import re
from common import *
from esp import Esp
from factesp import FactEsp, natural_loops
from mir import Graph, RESULT, OK, ERR
from terms import Interp, leaves, subterms, show, add, C, is_c, lin_parts, mk, eq
from poly import entails

RULE = ("Path-sensitive symbolic analysis of Archive::verify_signature with the library's signature code inlined.  For every path that reports WeakValid or StrongValid, the branch facts must pin every single byte of the "
        "RSA-decrypted signature, contiguously from the first to the last: PKCS#1 v1.5 (00 01 FF.. 00, MD5 DigestInfo, MD5 digest) for weak, 0B BB.. SHA-1 digest for strong signatures; the digest is that of all bytes "
        "read from the archive's start up to its end (every chunk read is hashed from its first to its last byte, the position advances by what was read, the loop ends only at the end of the range or of the file), where "
        "exactly the bytes of the (signature) file are zeroed (linear entailment).  Every other place that constructs a valid status is a violation; so is a caller (SFileVerifyArchive, archive verify) that succeeds on "
        "an invalid status or an error.  A decrypted weak signature keeps its leading zero byte, without which no signature could be valid.")
STATUS = "mopaq::archive::SignatureStatus"
VS = "mopaq::archive::Archive::verify_signature"
WEAK_DI = (0x30, 0x20, 0x30, 0x0C, 0x06, 0x08, 0x2A, 0x86, 0x48, 0x86, 0xF7, 0x0D, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10)


def nodes_in(t):
    for x in subterms(t):
        if x.op in ("phi", "next", "out") and isinstance(x.a[0], int):
            yield x.a[0]
        elif x.op == "call":
            yield x.a[1]


def is_modpow(x):
    return x.op == "call" and x.a[0].endswith("::modpow")


class V(FactEsp):
    max_states = 400000

    def __init__(self, g, prog, upd, buf):
        super().__init__(g)
        self.prog = prog
        self.nl = natural_loops(g)
        self.upd = upd
        self.zero = buf
        self.rets, self.updates = [], []
        self._vn = {}
        heads = set(self.nl)
        self.phis = {}
        for ph in self.I.phi_in:
            if ph.a[0] not in heads:
                self.phis.setdefault(ph.a[0], []).append(ph)
        self.want_phi = set()

    def relevant(self, c):
        if any(is_modpow(x) for x in subterms(c)):
            return True
        if c.op in ("phi", "f"):
            return True
        return c.op in ("lt", "eq") and any(x.op in ("phi", "call", "f", "next") for x in subterms(c)) and not any(x.op == "call" and "log::" in x.a[0] for x in subterms(c))

    def varying(self, c):
        if c not in self._vn:
            self._vn[c] = frozenset(nodes_in(c))
        return self._vn[c]

    def on_move(self, ust, u, w):
        facts, its, cl = ust
        if w in self.nl and u in self.nl[w]:          # next iteration: forget what was known about the last one
            body = self.nl[w]
            facts = frozenset(f for f in facts if not (self.varying(f[0]) & body))
            cl = frozenset(x for x in cl if not (x[0] == "zero" and x[3] in body))
        ps = [p for p in self.phis.get(w, ()) if p in self.want_phi]
        if ps:
            new = {(eq(p, self.I.simp(v)), True) for p in ps for (k, _), v in self.I.phi_in[p].items() if k == u}
            facts = facts | frozenset(f for f in new if f[0].op != "c")
        return (facts, its, cl)

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if node.id in self.zero:
            return [(None, cl | {("zero",) + self.zero[node.id] + (node.id,)})]
        if node.id in self.upd:
            self.updates.append((node.id, facts, cl, self.cur))
        return None

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust[0], self.cur))


def adaptor(t):
    if t.op == "pure":
        return t.a[0].rsplit("::", 1)[-1], t.a[1]
    return t.op, t.a


def base_chain(t):
    """iterator chain -> (iterated buffer, first, last or None, enumerated offset) ; None if not understood"""
    op, ar = adaptor(t)
    if op in ("iter", "copied", "cloned", "by_ref", "into_iter"):
        b = ar[0]
        if op == "into_iter" and adaptor(b)[0] in ("iter", "copied", "cloned", "enumerate", "skip", "take"):
            return base_chain(b)
        if op in ("iter", "into_iter"):
            lo, hi = C(0), None
            while b.op in ("&", "*"):
                b = b.a[0]
            if b.op == "slice":
                return b.a[0], b.a[1], None if b.a[2] == "end" else b.a[2], None
            return b, lo, hi, None
        return base_chain(b)
    if op == "enumerate":
        r = base_chain(ar[0])
        return r and (r[0], r[1], r[2], r[1])
    if op in ("skip", "take"):
        r = base_chain(ar[0])
        if r is None:
            return None
        b, lo, hi, off = r
        if op == "skip":
            return b, add(lo, ar[1]), hi, off
        e = add(lo, ar[1])
        return b, lo, e if hi is None or (is_c(hi) and is_c(e) and e.a[0] < hi.a[0]) else hi, off
    return None


def const_bytes(t):
    while t.op in ("&", "*"):
        t = t.a[0]
    if t.op == "bytes":
        return tuple(t.a[0])
    if t.op == "array" and all(is_c(x) for x in t.a):
        return tuple(x.a[0] for x in t.a)
    if t.op == "agg" and all(hasattr(x, "op") and is_c(x) for x in t.a[3]):
        return tuple(x.a[0] for x in t.a[3])
    return None


class Pins:
    """intervals of a buffer whose content is fixed on a path"""

    def __init__(self, e):
        self.e, self.I = e, e.I
        self.cont = {}

    def is_hash(self, t):
        ls = leaves(self.I, t)
        out = []
        for x in ls:
            while x.op in ("&", "*", "into") or (x.op == "call" and re.search(r"::(into|deref|as_slice|as_ref|clone)$", x.a[0])) or (x.op == "pure" and re.search(r"::(into|deref|as_slice|as_ref|clone)$", x.a[0])):
                nx = x.a[0] if x.op in ("&", "*", "into") else (x.a[2] if x.op == "call" else x.a[1])[0]
                ll = leaves(self.I, nx)
                x = ll[0] if len(ll) == 1 else nx
                if len(ll) != 1:
                    break
            out.append(x)
        return bool(out) and all(x.op == "call" and re.search(r"::finalize$", x.a[0]) for x in out)

    def hashes(self, facts, b):
        """the finalize calls whose results are compared with a part of b"""
        out = set()
        for c, pol in facts:
            if pol and c.op == "eq":
                for x, y in (c.a, c.a[::-1]):
                    while x.op == "&":
                        x = x.a[0]
                    if x.op == "slice" and x.a[0] is b and self.is_hash(y):
                        out |= {z.a[1] for l in leaves(self.I, y) for z in subterms(l) if z.op == "call" and z.a[0].endswith("::finalize")}
        return out

    def continue_pins(self, h):
        """facts that hold whenever the loop with header h goes into another iteration"""
        if h not in self.cont:
            body = self.e.nl[h]
            I = self.I
            acc, seen, work = None, set(), [(h, frozenset())]
            while work:
                n, fs = work.pop()
                if (n, fs) in seen or len(seen) > 20000:
                    continue
                seen.add((n, fs))
                for lab, w in I.g.nodes[n].succ:
                    if w not in body or n not in I.instate:
                        continue
                    nf = I.new_facts(n, lab)
                    if nf is None:
                        continue
                    f2 = fs | frozenset(f for f in I.expand(nf))
                    if w == h:
                        acc = f2 if acc is None else acc & f2
                    else:
                        work.append((w, f2))
            self.cont[h] = acc or frozenset()
        return self.cont[h]

    def intervals(self, facts):
        """-> {buffer: [(start, end, content)]}"""
        out = {}

        def put(b, lo, hi, what):
            out.setdefault(b, []).append((lo, hi, what))
        for c, pol in facts:
            if not pol:
                continue
            if c.op == "eq":
                for x, y in (c.a, c.a[::-1]):
                    while x.op in ("&",):
                        x = x.a[0]
                    if x.op == "idx" and is_c(y):
                        put(x.a[0], x.a[1], add(x.a[1], C(1)), y.a[0])
                    if x.op == "slice":
                        cb = const_bytes(y)
                        hi = x.a[2]
                        if cb is not None:
                            put(x.a[0], x.a[1], add(x.a[1], C(len(cb))), cb)
                        elif self.is_hash(y):
                            put(x.a[0], x.a[1], hi, "hash")
                    el = self.element(x)
                    if el is not None and is_c(y):
                        b, nx, pos = el
                        if pos is not None:
                            put(b, pos, add(pos, C(1)), y.a[0])
            if c.op in ("call", "pure") and c.a[0].endswith("::all"):
                args = c.a[2] if c.op == "call" else c.a[1]
                r = self.all_of(args)
                if r:
                    put(*r)
        # loops
        for c, pol in facts:
            if not (c.op == "eq" and pol):
                continue
            for x, y in (c.a, c.a[::-1]):
                if x.op == "discr" and x.a[0].op == "next" and is_c(y):
                    nx = x.a[0]
                    h = self.header(nx.a[0])
                    if h is None:
                        continue
                    for c2, p2 in self.continue_pins(h):
                        if not p2 or c2.op != "eq":
                            continue
                        for a, b in (c2.a, c2.a[::-1]):
                            if not is_c(b):
                                continue
                            el = self.element(a)
                            if el is not None and el[1] is nx:
                                buf, lo, hi, off = base_chain(nx.a[1])
                                if y.a[0] == 1:
                                    if el[2] is not None:
                                        put(buf, lo, el[2], ("*", b.a[0]))
                                else:
                                    put(buf, lo, hi if hi is not None else "end", ("*", b.a[0]))
                            elif a.op == "idx" and self.range_of(nx) and a.a[1] is self.payload(nx):
                                lo, hi = self.range_of(nx)
                                put(a.a[0], lo, hi if y.a[0] == 0 else self.payload(nx), ("*", b.a[0]))
        for h in self.e.nl:
            for c2, p2 in self.continue_pins(h):
                if p2 and c2.op == "eq":
                    for a, b in (c2.a, c2.a[::-1]):
                        if a.op == "idx" and is_c(b) and a.a[1].op == "phi" and a.a[1].a[0] == h and a.a[1] in self.I.phi_in:
                            ph = a.a[1]
                            ins = set(self.I.simp(v) for v in self.I.phi_in[ph].values())
                            step = add(ph, C(1))
                            if step in ins and len(ins) == 2:
                                put(a.a[0], (ins - {step}).pop(), ph, ("*", b.a[0]))
        return out

    def payload(self, nx):
        return self.I.proj(mk("dc", nx, 1), ("f", 0))

    def range_of(self, nx):
        t = nx.a[1]
        if t.op == "agg" and t.a[1].startswith("core::ops::range::Range"):
            hi = t.a[3][1]
            return t.a[3][0], add(hi, C(1)) if "Inclusive" in t.a[1] else hi
        return None

    def header(self, n):
        hs = [h for h in self.e.nl if n in self.e.nl[h]]
        return min(hs, key=lambda h: len(self.e.nl[h])) if hs else None

    def element(self, x):
        """*(next(..) as Some).0 or .0.1 of an enumerated one -> (buffer, next term, its position or None)"""
        while x.op == "*" or x.op == "&":
            x = x.a[0]
        path = []
        while x.op == "f":
            path.append(x)
            x = x.a[0]
        if x.op != "dc" or x.a[0].op != "next":
            return None
        nx = x.a[0]
        r = base_chain(nx.a[1])
        if r is None:
            return None
        b, lo, hi, off = r
        if off is not None:
            if len(path) < 2:
                return None
            pair = path[-1]
            pos = self.I.proj(pair, ("f", 0))
            return b, nx, add(off, pos)
        return b, nx, None

    def all_of(self, args):
        it = args[0]
        while it.op == "&":
            it = it.a[0]
        r = base_chain(it)
        if r is None or args[1].op != "agg":
            return None
        q = args[1].a[1]
        if q not in self.e.prog.fns:
            return None
        I = Interp(Graph(self.e.prog, q, inline=lambda *a: False))
        st = [I.at_term(n) for n in I.g.returns if n in I.instate]
        if len(st) != 1:
            return None
        v = I.simp(I.read(st[0], (("L", I.g.frames[0].id, 0), ())))
        if v.op == "eq":
            for x, y in (v.a, v.a[::-1]):
                while x.op == "*":
                    x = x.a[0]
                if x.op == "param" and is_c(y):
                    return r[0], r[1], r[2] if r[2] is not None else "end", ("*", y.a[0])
        return None


def resolved(I, facts):
    """a condition that is a merge of constants and one comparison is that comparison"""
    out = set(facts)
    for c, pol in facts:
        if c.op in ("phi", "f"):
            ls = [x for x in leaves(I, c) if not (is_c(x) and bool(x.a[0]) != pol)]
            if len(ls) == 1 and ls[0].op in ("eq", "lt"):
                out.add((ls[0], pol))
    return frozenset(out)


def covers(pins, facts, spec, extra):
    """is some buffer derived from an RSA decryption pinned from its first to its last byte, with the content of spec?  -> (buffer, problem)"""
    iv = pins.intervals(facts)
    probs = []
    for b, xs in iv.items():
        if not any(is_modpow(x) for x in subterms(b)):
            continue
        pos, seq, used = C(0), [], set()
        while True:
            nxt = [x for x in xs if x not in used and (x[0] is pos or same(facts, x[0], pos))]
            if not nxt:
                break
            x = max(nxt, key=lambda v: v[2] == "hash")
            used.add(x)
            seq.append(x[2])
            pos = x[1]
            if pos == "end":
                break
        ln = pins.I.len_of(b)
        at_end = pos == "end" or (hasattr(pos, "op") and same(facts, pos, ln))
        p = None
        if flat(seq) != spec:
            p = "the bytes compared are %s, expected %s" % (flat(seq), spec)
        elif not at_end:
            p = "the comparison stops before the end of the decrypted signature"
        if p is None:
            return b, None
        probs.append(p)
    return None, (sorted(probs, key=len)[-1] if probs else "no byte of a decrypted signature is compared")


def flat(seq):
    out = []
    for x in seq:
        if isinstance(x, tuple) and x and x[0] == "*":
            out.append("%02X*" % x[1])
        elif isinstance(x, tuple):
            out += ["%02X" % v for v in x]
        elif isinstance(x, int):
            out.append("%02X" % x)
        else:
            out.append(x)
    return " ".join(out)


def same(facts, a, b):
    if a is b:
        return True
    if is_c(a) and is_c(b):
        return False
    d = add(a, b, -1)
    return entails(facts, d) and entails(facts, add(b, a, -1))


SPEC = {"weak": flat([0, 1, ("*", 0xFF), 0, WEAK_DI, "hash"]), "strong": flat([0x0B, ("*", 0xBB), "hash"])}


def inlined(q, fr):
    return (q.startswith("mopaq::crypto::") and "public_keys" not in q) or (q.startswith("mopaq::archive::Archive::") and q in PRIV)


PRIV = set()


def canon(I, t, stop):
    """replaces merges of one and the same value (loop-invariant variables) by that value; merges at the nodes in stop stay"""
    memo = {}

    def vals(x, seen):
        x = I.simp(x)
        if x.op != "phi" or x.a[0] in stop or x not in I.phi_in:
            return {go(x)} if x.op == "lin" else {x}
        if x in seen:
            return set()
        seen.add(x)
        out = set()
        for v in I.phi_in[x].values():
            out |= vals(v, seen)
        return out

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = x
        if x.op == "phi":
            vs = vals(x, set())
            if len(vs) == 1:
                memo[x] = vs.pop()
        elif x.op == "lin":
            r = C(x.a[0])
            for y, k in x.a[1]:
                z = go(y)
                c, d = lin_parts(z)
                from terms import mklin
                r = add(r, mklin(c * k, {q: w * k for q, w in d.items()}))
            memo[x] = r
        return memo[x]
    return go(I.simp(t))


def names(t):
    """linear term -> {name of field or function: coefficient}"""
    c, d = lin_parts(t)
    out = {}
    for x, k in d.items():
        while x.op in ("cast", "*", "&") and hasattr(x.a[0], "op"):
            x = x.a[0]
        nm = str(x.a[1]).rsplit(".", 1)[-1] if x.op == "f" else x.a[0].rsplit("::", 1)[-1] if x.op in ("call", "pure") else "?" + x.op
        out[nm] = out.get(nm, 0) + k
    if c:
        out["+"] = c
    return out


SIZE = ({"archive_size": 1}, {"get_archive_size": 1}, {"archive_size_64": 1})


def strip(t):
    while t.op in ("&", "*"):
        t = t.a[0]
    return t


class Loop:
    """the loop that feeds a digest"""

    def __init__(self, ctx, e, fin, kind):
        self.ctx, self.e, self.I, self.kind = ctx, e, e.I, kind
        I, g = e.I, e.g
        site = {s.node: s for s in I.sites()}
        self.sites = site
        h = fin.vals[0]
        hs = [x.a[0] for x in subterms(h) if x.op == "phi" and x.a[0] in e.nl]
        self.ok = False
        self.h = None
        for n in hs:
            ups = [s for s in site.values() if s.node in e.nl[n] and re.search(r"::update$", s.fn)]
            if ups:
                self.h, self.ups = n, ups
        if self.h is None:
            self.bad("no-loop", "the digest compared with the %s signature is not fed by a loop over the archive" % kind, fin.node)
            return
        body = e.nl[self.h]
        self.reads = [s for s in site.values() if s.node in body and re.search(r"Read>?::read(_exact)?$", s.fn)]
        self.seeks = [s for s in site.values() if s.node in body and re.search(r"Seek>?::seek$", s.fn)]
        if len(self.reads) != 1:
            self.bad("reads", "the loop hashing the archive does not read one chunk per round", fin.node)
            return
        r = self.reads[0]
        self.n = I.proj(mk("dc", r.res, 0), ("f", 0)) if not r.fn.endswith("read_exact") else None
        dst = strip(r.vals[1])
        self.rhi = dst.a[2] if dst.op == "slice" else I.len_of(dst)
        if dst.op == "slice" and not is_c(dst.a[1], 0):
            self.bad("read-start", "the chunk is not read to the beginning of the buffer that is hashed", r.node)
        if self.n is None:
            self.n = self.rhi
        self.pos = None
        for ph in I.phi_in:
            if ph.a[0] == self.h:
                back = [canon(I, v, {self.h}) for (u, _), v in I.phi_in[ph].items() if u in body]
                init = [canon(I, v, {self.h}) for (u, _), v in I.phi_in[ph].items() if u not in body]
                if back and all(add(b, ph, -1) is canon(I, self.n, {self.h}) for b in back) and len(set(init)) == 1:
                    self.pos, self.init = ph, init[0]
        if self.pos is None:
            self.bad("position", "no position of the loop hashing the archive advances by exactly the bytes read", r.node)
            return
        self.ok = True

    def bad(self, key, text, node, trail=None):
        self.ctx.violation("%s:%s" % (key, self.kind), text, self.e.g.span(node), trail)

    def updates(self, states):
        I, e = self.I, self.e
        for (nid, facts, cl, cur) in states:
            s = next((u for u in self.ups if u.node == nid), None)
            if s is None:
                continue
            self.ctx.count("hash_rounds_%s" % self.kind)
            v = strip(s.vals[1])
            lo, hi = (v.a[1], v.a[2]) if v.op == "slice" else (C(0), "end")
            if not is_c(lo, 0) or hi == "end" or canon(I, hi, {self.h}) is not canon(I, self.n, {self.h}):
                self.bad("hashed-part", "not exactly the bytes just read are hashed (from %s to %s)" % (show(lo), hi if hi == "end" else show(hi)[:60]), nid, e.trail(cur))
            if self.kind == "weak":
                self.excluded(nid, facts, cl, cur)

    def excluded(self, nid, facts, cl, cur):
        ex = {}
        for c, _ in facts:
            for x in subterms(c):
                if x.op == "f" and str(x.a[1]).endswith("FileInfo.file_pos") and any(y.op == "s" and y.a[0] == "(signature)" for y in subterms(x)):
                    ex["b"] = x
                elif x.op == "f" and str(x.a[1]).endswith("FileInfo.compressed_size") and any(y.op == "s" and y.a[0] == "(signature)" for y in subterms(x)):
                    ex["s"] = x
        zs = [x for x in cl if x[0] == "zero"]
        if "b" not in ex or "s" not in ex:
            self.bad("exclude-none", "a chunk can be hashed without having been compared with the position of the (signature) file", nid, self.e.trail(cur))
            return
        beg, end = ex["b"], add(ex["b"], ex["s"])
        pos, n = self.pos, self.n
        if not zs:
            if not entails(facts, [add(pos, end, -1), add(add(beg, pos, -1), n, -1)]):
                self.bad("exclude-missing", "a chunk that contains bytes of the (signature) file can be hashed without zeroing them", nid, self.e.trail(cur))
            return
        for _, a, b, _n in zs:
            a, b = canon(self.I, a, {self.h}), canon(self.I, b, {self.h})
            if not (entails(facts, add(add(pos, a), beg, -1)) and entails(facts, add(add(end, pos, -1), b, -1))):
                self.bad("exclude-more", "bytes outside of the (signature) file can be left out of the digest, so changing them is not noticed", nid, self.e.trail(cur))
            lower = entails(facts, [add(C(0), a, -1), add(add(beg, pos, -1), a, -1)])
            upper = entails(facts, [add(b, n, -1), add(add(pos, b), end, -1)])
            if not (lower and upper):
                self.bad("exclude-less", "not all bytes of the (signature) file are zeroed", nid, self.e.trail(cur))

    def accept(self, facts, cur):
        """on a path that accepts: the loop ended at the end of the signed range (or of the file)"""
        I = self.I
        n = self.n
        if (eq(n, C(0)), True) in facts:
            return
        ends = []
        for c, pol in facts:
            if c.op in ("lt", "eq"):
                for x in c.a:
                    d = add(x, self.pos, -1)
                    if self.pos in lin_parts(x)[1] and lin_parts(x)[1][self.pos] == -1:      # compared as end - pos
                        x2 = add(x, self.pos)
                    elif x is not self.pos:
                        x2 = x
                    else:
                        continue
                    if self.pos in lin_parts(x2)[1]:
                        continue
                    if entails([(c, pol)], add(self.pos, x2, -1)):
                        ends.append(x2)
        good = False
        for x in ends:
            if names(add(x, self.init, -1)) in SIZE:
                good = True
        if not good:
            self.bad("range", "the digest compared with the %s signature does not cover the whole archive (hashing may stop at %s)" % (self.kind, "; ".join(sorted({show(x)[:120] for x in ends})) or "any point"),
                     self.h, self.e.trail(cur))
        start = names(self.init)
        if start == {"archive_offset": 1}:
            pass
        elif not start:
            # relative position: the reader was put at the archive's start before
            pass
        else:
            self.bad("range-start", "the digest does not start at the archive's start but at %s" % show(self.init)[:120], self.h, self.e.trail(cur))

    def seeks_ok(self):
        I = self.I
        for s in self.seeks:
            v = I.simp(s.vals[1])
            if not (v.op == "agg" and v.a[2] == 0 and canon(I, v.a[3][0], {self.h}) is self.pos):
                self.bad("seek", "the chunk is not read from the position the loop is at", s.node)
        if not self.seeks and names(self.init):
            pass
        if not self.seeks:
            # the last seek before the loop on the way to it
            prior = [s for s in self.sites.values() if re.search(r"Seek>?::seek$", s.fn) and self.dominates(s.node, self.h)]
            if not prior:
                self.bad("no-seek", "the archive is hashed without going to its start", self.h)
                return
            last = max(prior, key=lambda s: self.e.g.rpo_i[s.node])
            v = I.simp(last.vals[1])
            if not (v.op == "agg" and v.a[2] == 0 and names(v.a[3][0]) == {"archive_offset": 1}):
                self.bad("start", "hashing starts at %s instead of the archive's start" % show(v)[:120], last.node)

    def dominates(self, a, b):
        from factesp import dominators
        if not hasattr(self.e, "_dom"):
            self.e._dom = dominators(self.e.g)
        return a in self.e._dom.get(b, ())


def run(ctx):
    prog = ctx.prog
    if not ctx.need(VS):
        return
    vidx = {v["name"]: i for i, v in enumerate(prog.adts[STATUS]["variants"])}
    valid = {vidx["WeakValid"]: "weak", vidx["StrongValid"]: "strong"}
    PRIV.clear()
    PRIV.update(f for f in prog.fns if f.startswith("mopaq::archive::Archive::") and STATUS in prog.fns[f]["locals"][0]["ty"])
    g = Graph(prog, VS, inline=inlined)
    ctx.functions |= {fr.path for fr in g.frames}
    e = V(g, prog, set(), {})
    sites = {s.node: s for s in e.I.sites()}
    e.upd = {s.node for s in sites.values() if re.search(r"::update$", s.fn)}
    for s in sites.values():
        if re.search(r"::(iter_mut|fill|split_at_mut)$", s.fn):
            v = strip(s.vals[0])
            if v.op == "slice":
                e.zero[s.node] = (v.a[1], v.a[2])
            else:
                e.zero[s.node] = (C(0), e.I.len_of(v))
            e.want_phi |= {x for t in e.zero[s.node] if hasattr(t, "op") for x in subterms(t) if x.op == "phi"}
    e.start(frozenset())
    sp = prog.fns[VS]["span"]
    if e.exceeded:
        ctx.violation("undecided", "too many paths in verify_signature", sp)
    pins = Pins(e)
    loops = {}
    for rv, facts, cur in e.rets:
        if rv is None or rv[0] != "v" or rv[2] == ERR:
            continue
        st = rv[3][0]
        if st is None or st[0] != "v":
            ctx.violation("status", "verify_signature returns a status the analysis cannot follow", sp, e.trail(cur))
            continue
        if st[2] not in valid:
            continue
        kind = valid[st[2]]
        ctx.count("valid_paths_%s" % kind)
        facts = resolved(e.I, facts)
        b, p = covers(pins, facts, SPEC[kind], ())
        if p:
            ctx.violation("coverage:%s" % kind, "a %s signature can be reported valid although not all of it was checked: %s" % (kind, p), sp, e.trail(cur))
            continue
        rsa(ctx, e, sites, b, kind)
        fins = pins.hashes(facts, b)
        for f in fins:
            if (kind, f) not in loops:
                lp = loops[(kind, f)] = Loop(ctx, e, sites[f], kind)
                if lp.ok:
                    lp.updates(e.updates)
                    lp.seeks_ok()
            if loops[(kind, f)].ok:
                loops[(kind, f)].accept(facts, cur)
    ctx._vs = g
    literals(ctx, prog, valid, {i: n for n, i in vidx.items()})
    users(ctx, prog, vidx)
    for k in ("valid_paths_weak", "valid_paths_strong", "hash_rounds_weak", "hash_rounds_strong"):
        ctx.floor(k, 1)


VA = "storm::SFileVerifyArchive"
GI = "mopaq::archive::Archive::get_info"


def literals(ctx, prog, valid, names_):
    """every place that makes a valid status"""
    n = 0
    for f in sorted(prog.fns):
        if not f.split("::")[0].lstrip("<") in ("mopaq", "storm", "storm_cli") or (f.startswith("<") and STATUS + " as " in f):
            continue
        if f in PRIV:
            continue
        for b in prog.fns[f]["blocks"]:
            for s in b["s"]:
                v = s.get("v")
                if v and v["r"] == "agg" and v.get("adt") == STATUS and v.get("vi") in valid:
                    if re.search(r"SignatureStatus as |::tests?::", f):
                        continue
                    n += 1
                    ctx.violation("made-up:%s" % f, "%s makes the status %s itself; only verify_signature may find a signature valid" % (f, names_[v["vi"]]), s.get("sp"))
    for f in sorted(PRIV):
        ctx.count("functions_returning_a_status")
        if f != VS and f not in {fr.path for fr in ctx._vs.frames}:
            ctx.violation("other:%s" % f, "%s reports a signature status without being part of verify_signature" % f, prog.fns[f]["span"])


class Users(Esp):
    """what callers make of the result of verify_signature"""
    max_states = 300000

    def __init__(self, g, outcomes, flagloc=None):
        super().__init__(g)
        self.outcomes, self.rets, self.aggs = outcomes, [], []

    def rvalue(self, env, fr, v):
        if v["r"] == "bin":
            a, b = self.operand(env, fr, v["a"]), self.operand(env, fr, v["b"])
            if v["op"] == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y and y[0] == "i" and x == ("F",):
                        return ("fl", y[1])
            if v["op"] in ("Eq", "Ne"):
                for x, y in ((a, b), (b, a)):
                    if x == ("F",) and y == ("i", 0):
                        return ("flt", 0, "Ne" if v["op"] == "Eq" else "Eq")
                    if x and x[0] == "fl" and y == ("i", 0):
                        return ("flt", x[1], v["op"])
                    if x and x[0] == "fl" and y == ("i", x[1]):
                        return ("flt", x[1], "Ne" if v["op"] == "Eq" else "Eq")
        return super().rvalue(env, fr, v)

    _pend = None

    def refine(self, env, n, fr, t, opl, lab):
        self._pend = None
        cur = env.get((fr.id, opl[0])) if opl is not None and len(opl) == 1 else None
        super().refine(env, n, fr, t, opl, lab)
        if cur is not None and cur[0] == "flt":
            truth = not (lab[0] == "sw" and lab[1] == 0)
            self._pend = ("req", cur[1], truth if cur[2] == "Ne" else not truth)

    def on_edge(self, env, ust, node, lab, w):
        ev, self._pend = self._pend, None
        if ev:
            if ("req", ev[1], not ev[2]) in ust or (ev[1] and ev[2] and ("req", 0, True) in ust):
                return "STOP"
            ust = ust | {ev}
        return ust

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        if p == VS:
            return [(val, ust | {("sig", tag)}) for tag, val in self.outcomes]
        return [(None, ust)]

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def users(ctx, prog, vidx):
    outs = [(nm, ("v", RESULT, OK, (("v", STATUS, i, ()),))) for nm, i in sorted(vidx.items())] + [("Err", ("v", RESULT, ERR, (None,)))]
    if ctx.need(VA):
        g = Graph(prog, VA, inline=lambda q, fr: q.startswith("storm::") and q != "storm::SFileVerifyFile")
        fn = prog.fns[VA]
        fl = [i for i in range(1, fn["argc"] + 1) if fn["locals"][i]["ty"] == "u32"]
        u = Users(g, outs)
        u.run([(g.rpo[0], {(g.root.id, i): ("F",) for i in fl}, frozenset(), "in")])
        if u.exceeded:
            ctx.violation("undecided:" + VA, "too many paths in SFileVerifyArchive", fn["span"])
        ctx.functions |= {fr.path for fr in g.frames}
        for rv, ust, cur in u.rets:
            if rv == ("i", 0):
                continue
            ctx.count("verify_archive_success_paths")
            tags = {x[1] for x in ust if x[0] == "sig"}
            for tg in sorted(tags):
                if tg == "Err" or tg.endswith("Invalid"):
                    ctx.violation("accepted:%s" % tg, "SFileVerifyArchive can succeed although verify_signature returned %s" % tg, fn["span"], u.trail(cur))
            asked = ("req", 0, True) in ust or ("req", 16, True) in ust or not any(x[0] == "req" and x[1] == 16 for x in ust)
            if asked and not tags:
                ctx.violation("skipped", "SFileVerifyArchive can succeed without having verified the signature it was asked to", fn["span"], u.trail(cur))
        ctx.floor("verify_archive_success_paths", 1)
    if ctx.need(GI):
        info = "mopaq::archive::ArchiveInfo"
        idx = [i for i, x in enumerate(prog.adts[info]["variants"][0]["fields"]) if x[0] == "signature_status"]
        g = Graph(prog, GI, inline=lambda q, fr: False)
        u = Users(g, outs)
        u.run([(g.rpo[0], {}, frozenset(), "in")])
        ctx.functions.add(GI)
        for rv, ust, cur in u.rets:
            if rv is None or rv[0] != "v" or rv[2] != OK or not rv[3] or rv[3][0] is None or not idx:
                if rv is not None and rv[0] == "v" and rv[2] == ERR:
                    continue
                ctx.violation("info", "get_info returns a value the analysis cannot follow", prog.fns[GI]["span"], u.trail(cur))
                continue
            tags = {x[1] for x in ust if x[0] == "sig"}
            v = rv[3][0][3][idx[0]] if len(rv[3][0][3]) > idx[0] else None
            inv = {i: nm for nm, i in vidx.items()}
            got = inv.get(v[2]) if v is not None and v[0] == "v" else None
            ctx.count("get_info_results")
            for tg in tags:
                if (tg == "Err" and not (got or "").endswith("Invalid")) or (tg != "Err" and got != tg):
                    ctx.violation("info:%s" % tg, "get_info reports the signature status %s where verify_signature returned %s" % (got, tg), prog.fns[GI]["span"], u.trail(cur))
        ctx.floor("get_info_results", 2)


_rsa = set()


def rsa(ctx, e, sites, b, kind):
    """the buffer is signature^e mod n of the built-in key, in full length"""
    mp = [x for x in subterms(b) if is_modpow(x)]
    for m in mp:
        if (m, kind) in _rsa:
            continue
        _rsa.add((m, kind))
        s = sites[m.a[1]]
        has = [{x.a[0].rsplit("::", 1)[-1] for x in subterms(v) if x.op in ("call", "pure")} for v in s.vals]
        key = kind + "_public_key"
        ctx.count("rsa_operations")
        if "e" not in has[1] or key not in has[1] or "n" not in has[2] or key not in has[2]:
            ctx.violation("rsa-key:%s" % kind, "the %s signature is not decrypted with exponent and modulus of the built-in %s public key" % (kind, kind), e.g.span(s.node))
        src = {x.a[0] for x in subterms(s.vals[0]) if x.op == "s"}
        if kind == "weak" and "(signature)" not in src:
            ctx.violation("rsa-data:%s" % kind, "the weak signature that is checked is not the content of the (signature) file", e.g.span(s.node))
    if kind == "weak" and b.op == "call" and b.a[0].endswith("::to_bytes_be"):
        ctx.violation("padding:weak", "the decrypted weak signature loses its leading zero byte, so a correct signature is never recognised", e.g.span(b.a[1]))
