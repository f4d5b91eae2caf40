"""FactEsp whose paths also know which value every (chosen) merge got on the way: terms can be resolved for one path."""
from factesp import FactEsp, natural_loops
from mir import RESULT, OPTION, ERR
from terms import Interp, Intervals, T, mk, C, is_c, eq, lt, bnot, add, mklin, lin_parts, comm, subterms, binop, mul


def rebuild(I, t, sub, memo=None):
    """the term with sub applied to its leaves-first parts, simplified again"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        memo[x] = x
        r = sub.get(x)
        if r is not None:
            r = go(r)
        elif x.op in ("c", "s", "phi", "arg", "bytes", "unk", "next", "call", "out"):
            r = x
        elif x.op == "f":
            b = go(x.a[0])
            r = x if b is x.a[0] else I.simp(I.proj(b, x.a[2]))
        elif x.op == "lin":
            r = C(x.a[0])
            for y, k in x.a[1]:
                c, d = lin_parts(go(y))
                r = add(r, mklin(c * k, {q: w * k for q, w in d.items()}))
        else:
            a = tuple(go(y) for y in x.a)
            if all(p is q for p, q in zip(a, x.a)) or a == x.a:
                r = x
            elif x.op == "eq":
                r = eq(*a)
            elif x.op == "lt":
                r = lt(*a)
            elif x.op == "not":
                r = bnot(*a)
            elif x.op in ("and", "or", "xor"):
                r = a[0]
                for y in a[1:]:
                    r = comm(x.op, r, y)
            elif x.op == "mul":
                r = mul(*a)
            elif x.op == "discr":
                r = I.discr(a[0], *a[1:])
            elif x.op == "cast" and is_c(a[1]):
                r = a[1]
            else:
                r = mk(x.op, *a)
        memo[x] = r
        return r
    return go(t)


class PathEsp(FactEsp):
    """client state of FactEsp: (merges, client of the subclass)"""

    skip_err = False      # leave out paths on which a call's Result was found to be an error
    through = None        # only merges reachable through these operators are resolved (None: all)

    def __init__(self, g, I=None, wants=None):
        """wants: terms whose merges are to be resolved (None: all merges)"""
        super().__init__(g, I)
        self.nl = natural_loops(g)
        self.wanted = {}
        self._memo = {}
        if wants is None:
            todo = list(self.I.phi_in)
        else:
            todo, seen = [], set()
            st = [x for t in wants for x in self.parts(t) if x.op == "phi"]
            while st:
                p = st.pop()
                if p in seen:
                    continue
                seen.add(p)
                todo.append(p)
                for v in self.I.phi_in.get(p, {}).values():
                    st += [x for x in self.parts(self.I.simp(v)) if x.op == "phi" and x not in seen]
        for p in todo:
            if p.a[0] not in self.nl and p in self.I.phi_in:
                self.wanted.setdefault(p.a[0], []).append(p)

    def parts(self, t):
        out, seen = [], set()
        st = [t]
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st += x
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                out.append(x)
                if self.through is None or x.op in self.through:
                    st += x.a
        return out

    def is_err(self, f):
        """the fact says: the Result of a call is an error"""
        c, pol = f
        if c.op != "eq":
            return False
        d = [x for x in c.a if x.op == "discr"]
        k = [x for x in c.a if x.op == "c"]
        if not d or not k or d[0].a[0].op != "call" or (k[0].a[0] == 1) != pol:
            return False
        n = self.g.nodes[d[0].a[0].a[1]]
        if not n.term or n.term[0] != "call":
            return False
        fr, t = n.term[1], n.term[2]
        dest = t.get("dest")
        return dest is not None and len(dest[1] if len(dest) > 1 and dest[1] else ()) == 0 and fr.fn["locals"][dest[0]]["ty"].startswith(("core::result::Result", "std::result::Result", "Result<"))

    def start(self, client):
        super().start((frozenset(), client))

    def value(self, ust, t):
        return self.at(ust[2][0], t)

    def at(self, phis, t):
        k = (phis, t)
        if k not in self._memo:
            self._memo[k] = rebuild(self.I, self.I.simp(t), dict(phis))
        return self._memo[k]

    def on_move(self, ust, u, w):
        facts, its, (phis, cl) = ust
        ps = self.wanted.get(w)
        if ps:
            d = dict(phis)
            for p in ps:
                for (k, _), v in self.I.phi_in[p].items():
                    if k == u:
                        v = self.at(phis, v)
                        if v is p:
                            d.pop(p, None)
                        else:
                            d[p] = v
            phis = frozenset(d.items())
        if w in self.nl and u in self.nl[w]:
            body = self.nl[w]
            phis = frozenset((p, v) for p, v in phis if p.op == "cnt" or p.a[0] not in body)
            facts = frozenset(f for f in facts if not any(isinstance(x.a[0], int) and x.a[0] in body for x in subterms(f[0]) if x.op in ("phi", "next", "out"))
                              and not any(x.op == "call" and x.a[1] in body for x in subterms(f[0])))
        return (facts, its, (phis, self.move(cl, u, w)))

    def step(self, phis, nx, some):
        """one step of a loop over an array of known length: which element it gets"""
        els = self.elements(phis, nx.a[1])
        if els is None:
            return None
        d = dict(phis)
        cnt = mk("cnt", nx.a[0])
        k = d[cnt].a[0] if cnt in d else 0
        if not some:
            if k != len(els):
                return "STOP"
            d.pop(cnt, None)
        else:
            if k >= len(els):
                return "STOP"
            d[cnt] = C(k + 1)
            d[nx] = mk("agg", "adt", OPTION, 1, (els[k],))
        return frozenset(d.items())

    def elements(self, phis, chain):
        t = chain
        seen = set()
        while t not in seen:
            seen.add(t)
            if t.op == "phi" and t in self.I.phi_in:
                vs = {v for v in (self.I.simp(v) for v in self.I.phi_in[t].values()) if v is not t}
                if len(vs) != 1:
                    return None
                t = vs.pop()
            elif t.op in ("iter", "&", "*"):
                t = t.a[0]
                ref = True
            elif t.op == "pure" and t.a[0].rsplit("::", 1)[-1] in ("into_iter", "iter", "copied", "cloned"):
                t = t.a[1][0]
        t = self.at(phis, t)
        if t.op == "agg" and t.a[0] == "array" and len(t.a[3]) <= 8:
            return t.a[3]
        return None

    def move(self, cl, u, w):
        return cl

    def on_edge(self, env, ust, node, lab, w):
        facts, its, (phis, cl) = ust
        if node.id in self.I.instate:
            nf = self.I.new_facts(node.id, lab)
            if nf is None:
                return "STOP"
            add_ = set()
            for c, pol in nf:
                if self.skip_err and c.op == "eq":
                    ds = [x.a[0] for x in c.a if x.op == "discr"]
                    r = self.at(phis, ds[0]) if ds else None
                    if r is not None and r.op == "agg" and r.a[1] == RESULT and r.a[2] == ERR:
                        return "STOP"
                raw = c
                c = self.at(phis, c)
                while c.op == "not":
                    c, pol = c.a[0], not pol
                nx = next((x.a[0] for x in c.a if x.op == "discr" and x.a[0].op == "next"), None) if c.op == "eq" else None
                if nx is not None:
                    r = self.step(phis, nx, any(is_c(x, 1) for x in c.a) == pol)
                    if r == "STOP":
                        return "STOP"
                    if r is not None:
                        phis = r
                        continue
                if is_c(c):
                    if bool(c.a[0]) != pol:
                        return "STOP"
                    continue
                if c.op == "never" or self.skip_err and self.is_err((c, pol)):
                    return "STOP"
                if self.relevant(c):
                    add_.add((c, pol))
            if add_:
                add_ = {f for f in self.I.expand(add_) if self.relevant(f[0])}
            if add_ - facts:
                facts = facts | add_
                if not Intervals.consistent(facts):
                    return "STOP"
        cl = self.edge(env, cl, node, lab, w)
        if cl == "STOP":
            return "STOP"
        return (facts, its, (phis, cl))

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        r = self.call(env, ust[2][1], node, fr, t, args, p, k, ust)
        if r is None:
            return [(None, ust)]
        return [(o[0], (ust[0], ust[1], (ust[2][0], o[1]))) + tuple(o[2:]) if o[1] != "STOP" else (None, "STOP") for o in r]
