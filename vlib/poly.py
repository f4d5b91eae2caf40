"""Entailment of linear inequalities over terms (Fourier-Motzkin elimination on the facts of a path).  All atoms are taken as non-negative
(unsigned program quantities)."""
from terms import lin_parts, add, C, subterms


def ineqs(facts):
    """list of linear terms known to be >= 0"""
    out = []
    for t, pol in facts:
        if t.op == "lt":
            a, b = t.a
            out.append(add(add(b, a, -1), C(1), -1) if pol else add(a, b, -1))
        elif t.op == "eq" and pol and all(hasattr(x, "op") for x in t.a):
            a, b = t.a
            if a.op in ("s", "agg", "&", "array", "bytes") or b.op in ("s", "agg", "&", "array", "bytes"):
                continue
            out.append(add(a, b, -1))
            out.append(add(b, a, -1))
        elif t.op == "eq" and not pol and any(x.op == "c" and x.a[0] == 0 for x in t.a):
            y = t.a[0] if t.a[1].op == "c" else t.a[1]
            out.append(add(y, C(1), -1))
    return out


def axioms(terms):
    out = []
    for x in terms:
        op, ar = fn_args(x)
        if op == "min":
            for y in ar:
                out.append(add(y, x, -1))
        elif op == "max":
            for y in ar:
                out.append(add(x, y, -1))
    return out


def entails(facts, want, extra=(), limit=4000):
    """do the facts imply want >= 0 (one of them, if want is a list)?  (sound: True only if they do)"""
    ge = [lin_parts(x) for x in list(ineqs(facts)) + list(extra)]
    atoms = set()
    for w in want if isinstance(want, (list, tuple)) else [want]:
        c, d = lin_parts(w)
        ge.append((-c - 1, {t: -k for t, k in d.items()}))          # the negation: want <= -1
        atoms |= set(d)
    # keep the part connected with the wanted inequality
    while True:
        more = set(atoms)
        for (_, dd) in ge:
            if any(t in atoms for t in dd):
                more |= set(dd)
        for t in list(more):
            op, ar = fn_args(t)
            if op in ("min", "max", "saturating_sub"):
                for y in ar:
                    more |= set(lin_parts(y)[1])
        if more == atoms:
            break
        atoms = more
    ge += [lin_parts(x) for x in axioms(atoms)]
    ge += [(0, {t: 1}) for t in atoms]
    ge = [g for g in ge if not g[1] or any(t in atoms for t in g[1])]
    cases = [cs for cs in (alternatives(t) for t in sorted(atoms, key=lambda t: t.id)) if cs][:4]
    return split(ge, cases, limit)


def split(ge, cases, limit):
    if infeasible(ge, limit):
        return True
    if not cases:
        return False
    return all(split(ge + [lin_parts(x) for x in alt], cases[1:], limit) for alt in cases[0])


def fn_args(t):
    if t.op in ("min", "max"):
        return t.op, t.a
    if t.op == "pure" or t.op == "call":
        return t.a[0].rsplit("::", 1)[-1], t.a[1] if t.op == "pure" else t.a[2]
    return t.op, t.a


def alternatives(t):
    """the cases of a term that is a minimum, maximum or saturating difference: lists of terms >= 0"""
    op, a = fn_args(t)
    if op in ("min", "max") and len(a) == 2 and all(hasattr(x, "op") for x in a):
        return [[add(t, x, -1), add(x, t, -1)] for x in a]
    if op == "saturating_sub" and len(a) == 2:
        d = add(a[0], a[1], -1)
        return [[d, add(t, d, -1), add(d, t, -1)], [add(C(0), d, -1), add(C(0), t, -1)]]
    return None


def norm(c, d):
    return (c, tuple(sorted(((t.id, t, k) for t, k in d.items() if k), key=lambda x: x[0])))


def infeasible(ge, limit):
    cur = {norm(c, d) for c, d in ge}
    while True:
        best = {}
        for c, d in cur:
            if not d and c < 0:
                return True
        rows = {}
        for c, d in cur:                     # tightest per coefficient vector
            if d:
                rows[d] = min(rows.get(d, c), c)
        if not rows:
            return False
        pos, neg = {}, {}
        for d in rows:
            for (_, t, k) in d:
                (pos if k > 0 else neg).setdefault(t, []).append(d)
        atoms = set(pos) | set(neg)
        x = min(atoms, key=lambda t: (len(pos.get(t, ())) * len(neg.get(t, ())) - len(pos.get(t, ())) - len(neg.get(t, ())), t.id))
        new = {(c, d) for d, c in rows.items() if all(t is not x for (_, t, k) in d)}
        for p in pos.get(x, ()):
            for n in neg.get(x, ()):
                dp, dn = {t: k for _, t, k in p}, {t: k for _, t, k in n}
                a, b = dp[x], -dn[x]
                dd = {t: b * k for t, k in dp.items()}
                for t, k in dn.items():
                    dd[t] = dd.get(t, 0) + a * k
                new.add(norm(b * rows[p] + a * rows[n], dd))
        if len(new) > limit:
            return False
        cur = new
