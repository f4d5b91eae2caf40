"""What the builder writes where: path-sensitive trace of the archive stream (positions taken, writes, seeks), and of the byte vectors of the tables."""
import re
from buildmodel import *
from pathesp import PathEsp
from terms import Interp, subterms, show, mk, C, is_c, T
from mir import RESULT, OK, ERR

V4 = "mopaq::header::MpqHeaderV4Data"
HDR = "mopaq::header::MpqHeader"


def static_width(fr, t, i=1):
    """length of the byte array behind the slice passed as i-th argument of a call, from its static type"""
    fn = fr.fn
    o = t["args"][i]
    for _ in range(6):
        pl = o.get("m") or o.get("c")
        if pl is None:
            return None
        l, projs = (pl[0], pl[1] if len(pl) > 1 else []) if isinstance(pl, (list, tuple)) else (pl, [])
        if projs:
            return None
        m = re.match(r"&(?:'\S+ )?(?:mut )?\[u8; (\d+)\]", fn["locals"][l]["ty"])
        if m:
            return int(m.group(1))
        defs = [s["v"] for b in fn["blocks"] for s in b["s"] if s.get("p") and s["p"][0] == l and not (s["p"][1] if len(s["p"]) > 1 else None)]
        if len({repr(d) for d in defs}) != 1 or defs[0]["r"] not in ("cast", "use", "ref"):
            return None
        if defs[0]["r"] == "ref":
            p = defs[0]["p"]
            if len(p) > 1 and p[1] and [x[0] for x in p[1]] != ["d"]:
                return None
            m = re.match(r"\[u8; (\d+)\]", fn["locals"][p[0]]["ty"])
            if m and not (len(p) > 1 and p[1]):
                return int(m.group(1))
            o = {"c": [p[0], []]}
            continue
        o = defs[0]["o"]
    return None


def width(g, I, site):
    n = g.nodes[site.node]
    w = static_width(n.term[1], n.term[2])
    if w is not None:
        return w
    ln = I.len_of(deref(I.simp(site.vals[1])))
    return ln.a[0] if ln is not None and is_c(ln) else None


def static_len(I, v):
    v = deref(I.simp(v))
    ln = I.len_of(v)
    if ln is not None and is_c(ln):
        return ln.a[0]
    return None


def roots(I, t, memo=None):
    """what a byte sink ultimately is: the terms at the start of its chain of updates"""
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("&", "*"):
            st.append(x.a[0])
        elif x.op == "out" and isinstance(x.a[-1], tuple) and isinstance(x.a[1], int) and x.a[1] < len(x.a[-1]):
            st.append(x.a[-1][x.a[1]])
        elif x.op == "phi" and x in I.phi_in:
            st += [I.simp(v) for v in I.phi_in[x].values()]
        elif x.op in ("ext", "push", "upd", "store"):
            st.append(x.a[0])
        else:
            out.add(x)
    return frozenset(out)


def unroll(I, t, stop=lambda x: False):
    """chain of write_all on a byte vector -> (base term, [(node, value)...] in order)"""
    evs = []
    while t.op == "out" and str(t.a[2]).endswith("::write_all") or t.op == "ext":
        if t.op == "ext":
            evs.append((None, t.a[1]))
            t = deref(t.a[0])
            continue
        evs.append((t.a[0], t.a[-1][1]))
        t = deref(t.a[-1][0])
    return t, evs[::-1]


class Trace(PathEsp):
    """client: per stream (root): (ps, pairs, off, hdr, start, ends)
       ps: position calls since the last write; pairs: (position call, first write after it); off: known absolute offset after a seek to a constant;
       hdr: ((offset, width, node, value)...) written at known offsets; start: ("seek" | "data", offset the first write went to);
       ends: position calls between the last write of data and the seek back"""
    max_states = 600000
    skip_err = True
    through = ("f", "dc", "agg", "lin", "cast", "pure", "&", "*", "phi", "shr", "min", "max", "discr", "mul", "or", "shl")

    def __init__(self, g, I, ws):
        self.sites = {s.node: s for s in I.sites()}
        self.ws = ws
        self.streams = {}
        hd = set()
        for n, s in self.sites.items():
            if s.fn.endswith("::seek") and s.vals[1].op == "agg" and is_c(s.vals[1].a[3][0], 0):
                st = [n]
                while st:
                    x = st.pop()
                    for _, w in g.nodes[x].succ:
                        if w not in hd:
                            hd.add(w)
                            st.append(w)
        wants = [v for n, s in self.sites.items() if n in hd and s.fn.endswith(("::write_all", "::seek")) for v in s.vals[1:]]
        wants += [v for n, s in self.sites.items() if s.fn.endswith("::seek") for v in s.vals[1:]]
        super().__init__(g, I, wants=wants)
        self.rets = []

    def relevant(self, c):
        return any(x.op == "f" and str(x.a[1]).endswith("ArchiveBuilder.version") for x in subterms(c))

    def stream(self, t):
        if t not in self.streams:
            rs = roots(self.I, self.I.simp(t))
            self.streams[t] = None if any(r.op in ("empty", "fill", "rep", "agg", "bytes") or r.op == "call" and "vec::Vec" in r.a[0] for r in rs) else rs
        return self.streams[t]

    def on_return(self, env, ust, node, rv):
        if rv is None or rv[2] == OK:
            self.rets.append((ust, self.cur))

    def call(self, env, cl, node, fr, t, args, p, k, ust):
        s = self.sites.get(node.id)
        if s is None:
            return None
        arg = None
        if s.fn in self.ws:
            for v in s.vals:
                if v.op in ("&", "phi", "out", "call") and "File" not in show(v)[:0]:
                    r = self.stream(v)
                    if r and any(x.op == "call" for x in r) and r in dict(cl):
                        arg = r
            if arg is None:
                return None
            kind = "write"
        else:
            kind = s.fn.rsplit("::", 1)[-1]
            if kind not in ("write_all", "write", "seek", "stream_position", "read_exact", "rewind", "write_fmt", "write_vectored", "set_position", "set_len"):
                return None
            arg = self.stream(s.vals[0])
            if arg is None:
                return None
        d = dict(cl)
        ps, pairs, off, hdr, start, ends = d.get(arg, (frozenset(), frozenset(), None, (), None, None))
        if kind == "stream_position":
            ps = ps | {node.id}
        elif kind == "seek":
            if start is not None and start[0] == "data" and ends is None:
                ends = ps
            ps = frozenset()
            v = self.at(ust[2][0], s.vals[1])
            c = self.at(ust[2][0], v.a[3][0]) if v.op == "agg" and v.a[2] == 0 else None
            off = c.a[0] if c is not None and is_c(c) else None
            if start is None:
                start = ("seek", off if off is not None else node.id)
            elif off is None:
                hdr = hdr + (("?", None, node.id),)
        elif kind == "read_exact":
            w = width(self.g, self.I, s)
            off = off + w if off is not None and w is not None else None
        elif kind in ("write_all", "write"):
            pairs = pairs | {(p_, node.id) for p_ in ps}
            if start is None:
                pairs = pairs | {("raw", node.id)}
            ps = frozenset()
            if start is not None and start[0] == "seek":
                start = ("data", start[1])
                off = None
            if off is not None and kind == "write_all" and s.fn not in self.ws:
                w = width(self.g, self.I, s)
                if sum(h[2] == node.id for h in hdr) > 8:        # a loop of unknown length
                    return [(None, "STOP")] if hdr[-1][0] == "?" else [(None, frozenset({**d, arg: (ps, pairs, None, hdr + (("?", None, node.id),), start, ends)}.items()))]
                hdr = hdr + ((off, w, node.id, deref(self.at(ust[2][0], s.vals[1]))),)
                off = off + w if w is not None else None
            elif hdr:
                hdr = hdr + (("?", None, node.id),)
        else:
            hdr = hdr + (("?", None, node.id),)
        d[arg] = (ps, pairs, off, hdr, start, ends)
        return [(None, frozenset(d.items()))]


def invariant_value(I, t):
    """merges of one and the same value (also around loops) are that value"""
    memo = {}

    def vals(x, seen):
        x = I.simp(x)
        if x.op != "phi" or x not in I.phi_in:
            return {x}
        if x in seen:
            return set()
        seen.add(x)
        out = set()
        for v in I.phi_in[x].values():
            out |= vals(v, seen)
        return out

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        memo[x] = x
        if x.op == "phi":
            vs = vals(x, set())
            if len(vs) == 1:
                memo[x] = go(vs.pop())
        elif x.op in ("f", "dc", "cast", "shr", "shl", "or", "lin", "&", "*", "agg", "pure"):
            a = tuple(go(y) for y in x.a)
            memo[x] = I.simp(I.proj(a[0], x.a[2])) if x.op == "f" and a[0] is not x.a[0] else (x if a == x.a else mk(x.op, *a))
        return memo[x]
    return go(I.simp(t))


KEEP_LEN = ("get_mut", "iter_mut", "index_mut", "set", "as_mut", "deref_mut", "sort", "sort_by", "fill", "swap", "encrypt_data")


def vec_lens(I, t):
    """possible numbers of elements of a vector (None among them: unknown)"""
    out, seen, st = set(), set(), [I.simp(t)]
    while st:
        x = I.simp(st.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_in:
            st += list(I.phi_in[x].values())
        elif x.op in ("&", "*", "store"):
            st.append(x.a[0])
        elif x.op == "upd" and all(len(p) and p[0][0] == "i" for p, _ in x.a[1]):
            st.append(x.a[0])
        elif x.op == "out" and isinstance(x.a[-1], tuple) and str(x.a[2]).rsplit("::", 1)[-1] in KEEP_LEN:
            st.append(x.a[-1][x.a[1]])
        elif x.op == "fill":
            out.add(x.a[1])
        else:
            out.add(None)
    return out


class Table:
    """the bytes of one table: kind, per-entry layout, number of entries"""

    def __init__(self, I, g, sites, enc, t):
        self.kind = self.n = None
        self.entry, self.cipher = [], None
        t = deref(I.simp(t))
        self.bytes = t
        if t.op == "out" and t.a[2] in enc:
            self.cipher = t.a[0]
            i = t.a[1]
            t = deref(I.simp(t.a[-1][i]))
        if t.op == "phi" and t in I.phi_in:
            ins = [I.simp(v) for v in I.phi_in[t].values()]
            start = [v for v in ins if v.op in ("empty",) or v.op == "call" and "with_capacity" in v.a[0]]
            back = [v for v in ins if v not in start]
            if len(back) == 1 and start:
                b, evs = unroll(I, back[0])
                if b is t:
                    off = 0
                    for n, v in evs:
                        w = width(g, I, sites[n]) if n is not None else static_len(I, v)
                        self.entry.append((off, w, n, deref(v)))
                        off = off + w if w is not None and off is not None else None
                    self.size = off
                    src = set()
                    for o, w, n, v in self.entry:
                        for x in subterms(v):
                            if x.op == "next":
                                src.add(x)
                    if len(src) == 1:
                        nx = src.pop()
                        chain = invariant_value(I, nx.a[1])
                        while chain.op in ("iter",) or chain.op == "pure" and chain.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter", "copied", "cloned"):
                            chain = chain.a[0] if chain.op == "iter" else chain.a[1][0]
                        ls = vec_lens(I, chain)
                        self.n = ls.pop() if len(ls) == 1 else None
                        names = {str(x.a[1]).split(".")[0] for o, w, n, v in self.entry for x in subterms(v) if x.op == "f" and "Entry." in str(x.a[1])}
                        self.kind = "hash" if names == {"HashEntry"} else "block" if names == {"BlockEntry"} else "hi_block" if not names and "HiBlockTable" in show(chain) + show(nx.a[1]) else None
            return
        consts = set()
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo += x
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op == "c":
                    consts.add(x.a[0])
                elif x.op == "phi" and x in I.phi_in:
                    todo += list(I.phi_in[x].values())
                todo += x.a
        self.kind = "het" if 0x1A544548 in consts else "bet" if 0x1A544542 in consts else None
