"""Esp combined with the symbolic value analysis: paths also carry the branch facts about chosen (loop-invariant) terms, so branches on the
same condition agree; loops can be forced to run at least once (for `this happens on every path` rules over per-element loops)."""
from esp import Esp
from terms import Interp, Intervals, subterms, mk
from mir import RESULT, OPTION

VARYING = {"phi", "call", "unk", "out", "next", "pj", "rv", "inv", "undef", "cv", "upd", "push", "ext", "store", "iter"}


def invariant(t, ok_calls=()):
    for x in subterms(t):
        if x.op in VARYING and not (x.op == "call" and any(o in str(x.a) for o in ok_calls)):
            return False
    return True


class FactEsp(Esp):
    """client state: (facts, client)"""
    force_loops = False

    def __init__(self, g, I=None):
        super().__init__(g)
        self.I = I or Interp(g)
        self._fc = {}
        self.loops = natural_loops(g) if self.force_loops else {}
        self.inloops = {}
        for h, body in self.loops.items():
            for n in body:
                self.inloops.setdefault(n, []).append(h)

        self.bphi = {}        # merges of conditions: which one it is, on the path
        heads = getattr(self.I, "heads", ())
        for p, inc in self.I.phi_in.items():
            if p.a[0] in heads:
                continue
            for (u, _), v in inc.items():
                v = self.I.simp(v)
                c = v
                while c.op == "not":
                    c = c.a[0]
                if c.op in ("eq", "lt") and self.relevant(c):
                    self.bphi.setdefault(p.a[0], {}).setdefault(p, {})[u] = v

    def on_move(self, ust, u, w):
        b = self.bphi.get(w)
        if not b:
            return ust
        facts = ust[0]
        for p, inc in b.items():
            facts = frozenset(f for f in facts if not (f[0].op == "is" and f[0].a[0] is p))
            if u in inc:
                facts = facts | {(mk("is", p, inc[u]), True)}
        return (facts,) + tuple(ust[1:])

    def chosen(self, facts, nid, lab):
        """facts from a branch on a merge of conditions"""
        if not any(f[0].op == "is" for f in facts) or nid not in self.I.instate:
            return frozenset()
        out = set()
        for c, pol in self.I.new_facts(nid, lab) or ():
            while c.op == "not":
                c, pol = c.a[0], not pol
            for f, _ in facts:
                if f.op == "is" and f.a[0] is c:
                    v, q = f.a[1], pol
                    while v.op == "not":
                        v, q = v.a[0], not q
                    out |= {x for x in self.I.expand({(v, q)}) if self.relevant(x[0])}
        return frozenset(out)

    def relevant(self, c):
        return invariant(c)

    def start(self, client):
        self.run([(self.g.rpo[0], {}, (frozenset(), frozenset(), client), "in")])

    def run(self, starts):
        super().run(starts)

    def facts_on(self, nid, lab):
        k = (nid, lab if not isinstance(lab, list) else tuple(lab))
        if k not in self._fc:
            if nid not in self.I.instate:
                self._fc[k] = frozenset()
            else:
                nf = self.I.new_facts(nid, lab)
                self._fc[k] = None if nf is None else frozenset(f for f in self.I.expand(nf) if self.relevant(f[0]))
        return self._fc[k]

    def on_edge(self, env, ust, node, lab, w):
        facts, its, cl = ust
        nf = self.facts_on(node.id, lab)
        if nf is None:
            return "STOP"
        if self.bphi:
            nf = nf | self.chosen(facts, node.id, lab)
        if nf:
            f2 = facts | nf
            if not Intervals.consistent(f2):
                return "STOP"
            facts = f2
        return (facts, its, self.edge(env, cl, node, lab, w))

    def edge(self, env, cl, node, lab, w):
        return cl

    def on_enter(self, env, ust, node):
        if not self.force_loops:
            return ust
        facts, its, cl = ust
        nid = node.id
        here = set(self.inloops.get(nid, ()))
        # its: set of (header, 0|1): entered / iterated
        cur = dict(its)
        for h in list(cur):
            if h not in here:
                if not cur[h]:
                    return "STOP"     # left the loop without completing an iteration
                del cur[h]
        for h in here:
            if h not in cur:
                cur[h] = 0
            elif nid == h:
                cur[h] = 1
        return (facts, frozenset(cur.items()), cl)

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        r = self.call(env, ust[2], node, fr, t, args, p, k, ust[0])
        if r is None:
            return [(None, ust)]
        return [(o[0], (ust[0], ust[1], o[1])) + tuple(o[2:]) if o[1] != "STOP" else (None, "STOP") for o in r]

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        return None

    def resolve(self, env, a):
        while a is not None and a[0] == "r":
            a = self.get_path(env, a[1], a[2])
        return a


def natural_loops(g):
    """header -> body nodes (union over back edges u->h where h dominates u)"""
    dom = dominators(g)
    loops = {}
    for u in g.rpo:
        for _, h in g.nodes[u].succ:
            if h in dom.get(u, ()):
                body = {h, u}
                st = [u]
                while st:
                    x = st.pop()
                    if x == h:
                        continue
                    for (p, lab) in g.preds[x]:
                        if p not in body:
                            body.add(p)
                            st.append(p)
                loops.setdefault(h, set()).update(body)
    return loops


def dominators(g):
    """node -> set of dominators, as chains through the immediate-dominator tree"""
    rpo, idx = g.rpo, g.rpo_i
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            ps = [p for p, _ in g.preds[n] if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                a, b = d, p
                while a != b:
                    while idx[a] > idx[b]:
                        a = idom[a]
                    while idx[b] > idx[a]:
                        b = idom[b]
                d = a
            if idom.get(n) != d:
                idom[n] = d
                ch = True
    out = {}
    for n in rpo:
        s = {n}
        x = n
        while idom[x] != x:
            x = idom[x]
            s.add(x)
        out[n] = s
    return out
