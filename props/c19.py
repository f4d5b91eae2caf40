import re
from common import *
from mir import Graph, RESULT, OPTION, OK, ERR
from esp import Esp
from factesp import natural_loops
from terms import Interp, lin_parts, subterms, leaves, show, is_c, path_facts, Intervals, lt, add, C, mk

RULE = ("Abstract interpretation of compress and decompress, specialised to each of the 255 method bytes (constants, enum variants and booleans followed exactly, the codecs opaque): the codecs "
        "applied by compress and those undone by decompress for the same byte are the same ones in reverse order, each fed with its predecessor's output, or compress refuses the byte; a decoder that "
        "insists on an exact output size is only used where that size is known.  The size decision of compress: compressed data is used only if it is shorter than the input including its method byte, "
        "which is the byte asked for; otherwise the input is returned unchanged.  The in-house sparse codec: control bytes of runs never equal the end marker and fall in the class the decoder gives them.")

COMPRESS = "mopaq::compression::compress::compress"
DECOMPRESS = "mopaq::compression::decompress::decompress"
ALGO = re.compile(r"^mopaq::compression::algorithms::(\w+)::(\w*(?:compress|explode|implode|encode|decode)\w*)$")
THRU = re.compile(r"::(to_vec|clone|to_owned|as_slice|as_ref|deref|deref_mut|into_vec|from|into|as_mut|borrow|must_use|with_context|context|map_err|into_boxed_slice|ok_or_else|index)$")


def family(p):
    m = ALGO.match(p)
    if not m:
        return None
    sub = "stereo" if "stereo" in m.group(2) else "mono" if "mono" in m.group(2) else ""
    return m.group(1) + (":" + sub if sub else "")


class E(Esp):
    max_states = 60000

    def __init__(self, g, prog, exact=None):
        super().__init__(g)
        self.prog = prog
        self.rets = []
        self.exact = exact or {}
        self.lossy = False

    def rvalue(self, env, fr, v):
        if v["r"] == "bin":
            a, b = self.operand(env, fr, v["a"]), self.operand(env, fr, v["b"])
            if a and b and a[0] == "i" and b[0] == "i":
                op = v["op"]
                base = op.replace("WithOverflow", "").replace("Unchecked", "")
                r = {"Add": a[1] + b[1], "Sub": a[1] - b[1], "BitXor": a[1] ^ b[1], "Mul": a[1] * b[1], "Shl": a[1] << min(b[1], 64), "Shr": a[1] >> min(b[1], 64)}.get(base)
                if r is not None and 0 <= r < 2 ** 32:
                    return ("t", (("i", r), ("i", 0))) if op.endswith("WithOverflow") else ("i", r)
        return super().rvalue(env, fr, v)

    def look(self, env, a):
        for _ in range(6):
            if a is not None and a[0] == "r":
                a = self.get_path(env, a[1], a[2])
        return a

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        fam = family(p)
        if fam:
            a = self.look(env, args[0])
            tag = a[1] if a is not None and a[0] == "T" else ("?",)
            new = tag + ((fam, self.exact.get(node.id, "")),)
            return [(("v", RESULT, OK, (("T", new),)), ust + (new,)), (("v", RESULT, ERR, ()), ust)]
        n = (k.get("fn") or p).rsplit("::", 1)[-1]
        if n in ("iter", "into_iter") and args:
            a = self.look(env, args[0])
            if a is not None and a[0] == "t":
                return [(("it", a[1]), ust)]
            if a is not None and a[0] == "it":
                return [(a, ust)]
        if n == "next" and args and args[0] is not None and args[0][0] == "r":
            a = self.look(env, args[0])
            if a is not None and a[0] == "it":
                e2 = dict(env)
                key, path = args[0][1], args[0][2]
                rest = ("it", a[1][1:])
                e2[key] = self.set_path(e2.get(key), path, rest) if path else rest
                byref = "Option<&" in fr.fn["locals"][t["dest"][0]]["ty"]
                return [(("v", OPTION, 1, (("&", a[1][0]) if a[1][0] is not None and byref else a[1][0],)) if a[1] else ("v", OPTION, 0, ()), ust, e2)]
        if n == "filter" and args and args[0] is not None and args[0][0] == "it" and identity_filter(self.prog, fr.path):
            return [(("it", tuple(x for x in args[0][1] if x != ("i", 0))), ust)]
        if n == "count" and args and args[0] is not None and args[0][0] == "it":
            return [(("i", len(args[0][1])), ust)]
        if n == "count_ones" and args and args[0] is not None and args[0][0] == "i":
            return [(("i", bin(args[0][1]).count("1")), ust)]
        if n in ("extend_from_slice", "extend", "append") and args and args[0] is not None and args[0][0] == "r":
            b = self.look(env, args[1])
            if b is not None and b[0] == "T":
                e2 = dict(env)
                key, path = args[0][1], args[0][2]
                cur = e2.get(key)
                nv = self.set_path(cur, path, b) if path else b
                if nv is not None:
                    e2[key] = nv
                return [(None, ust, e2)]
        if THRU.search(p) or THRU.search(k.get("fn") or ""):
            a = self.look(env, args[0]) if args else None
            if a is not None and a[0] in ("T", "v", "i"):
                return [(a, ust)]
        if n in ("eq", "ne") and len(args) == 2:
            # string comparisons of literals (adpcm_type == "mono")
            a, b = self.look(env, args[0]), self.look(env, args[1])
            if a is not None and b is not None and a[0] == "str" and b[0] == "str":
                return [(("i", int((a[1] == b[1]) == (n == "eq"))), ust)]
        return [(None, ust)]

    def const(self, k):
        s = k.get("s")
        if s is None and "prom" in k and k.get("def"):
            t = promoted(self.prog, k["def"], k["prom"])
            s = t.a[0] if t is not None and t.op == "s" else None
        return ("str", s) if s is not None else None

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


_idf, _prom = {}, {}


def promoted(prog, d, i):
    if (d, i) not in _prom:
        t = Interp(Graph(prog, d, inline=lambda q, fr: False)).prom(d, i)
        while t.op in ("&", "*") and hasattr(t.a[0], "op"):
            t = t.a[0]
        _prom[(d, i)] = t
    return _prom[(d, i)]


def identity_filter(prog, path):
    if path not in _idf:
        ok = False
        for c in prog.closures(path):
            f = prog.fns[c]
            if f["argc"] >= 2 and f["locals"][2]["ty"].endswith("&bool") and f["locals"][0]["ty"] == "bool":
                I = Interp(Graph(prog, c, inline=lambda q, fr: False))
                r = [I.simp(I.read(st, (("L", I.g.root.id, 0), ()))) for st in ret_states(I)]
                ok = bool(r) and all(strip(x).op == "param" for x in r)
        _idf[path] = ok
    return _idf[path]


def strip(t):
    while t.op in ("*", "&", "ref", "cast") and hasattr(t.a[-1], "op"):
        t = t.a[-1]
    if t.op == "ref":
        return t
    return t


def ret_states(I):
    return [I.at_term(n) for n in I.g.returns if n in I.instate]


def inl(prog):
    return lambda q, fr: q.startswith("mopaq::compression") and family(q) is None


def strict_decoders(ctx, prog):
    """decoders that return Err whenever the output length differs from the size they are given"""
    out = {}
    for p, f in prog.fns.items():
        if family(p) is None or "{closure" in p or "decompress" not in p:
            continue
        sizes = [i for i in range(1, f["argc"] + 1) if f["locals"][i]["ty"] == "usize"]
        if not sizes:
            continue
        g = Graph(prog, p, inline=lambda q, fr: q.startswith("mopaq::compression"))
        I = Interp(g)
        hit = False
        for n in g.rpo:
            if n not in I.instate:
                continue
            for lab, w in g.nodes[n].succ:
                nf = I.new_facts(n, lab)
                for c, pol in nf or ():
                    if c.op == "eq" and not pol and any(x.op == "param" and x.a[0] == sizes[0] for x in c.a) and any(x.op == "len" for x in c.a):
                        e = R(g)
                        e.run([(w, {}, None, "in")])
                        if e.rets and all(r is not None and r[0] == "v" and r[2] == ERR for r in e.rets):
                            hit = True
        out[p] = hit
    return out


class R(Esp):
    max_states = 20000

    def __init__(self, g):
        super().__init__(g)
        self.rets = []

    def on_return(self, env, ust, node, rv):
        self.rets.append(rv)


def method_arg(prog, p):
    return next(i for i in range(1, prog.fns[p]["argc"] + 1) if prog.fns[p]["locals"][i]["ty"] == "u8")


def data_arg(prog, p):
    return next(i for i in range(1, prog.fns[p]["argc"] + 1) if re.match(r"&.*\[u8\]$", prog.fns[p]["locals"][i]["ty"]))


def run_method(prog, g, p, m, exact=None):
    e = E(g, prog, exact)
    env = {(g.root.id, method_arg(prog, p)): ("i", m), (g.root.id, data_arg(prog, p)): ("T", ())}
    e.run([(g.rpo[0], env, (), "in")])
    return e


def outcomes(e):
    """set of codec sequences of successful returns, with a path each"""
    out = {}
    for rv, ust, cur in e.rets:
        if rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR:
            continue
        v = rv[3][0] if rv is not None and rv[0] == "v" and rv[3] else None
        tag = v[1] if v is not None and v[0] == "T" else (ust[-1] if ust else ())
        out.setdefault((tag, ust[-1] if ust else ()), cur)
    return out


def run(ctx):
    prog = ctx.prog
    if not (ctx.need(COMPRESS) and ctx.need(DECOMPRESS)):
        return
    gc = Graph(prog, COMPRESS, inline=inl(prog))
    gd = Graph(prog, DECOMPRESS, inline=inl(prog))
    ctx.functions |= {fr.path for fr in gc.frames} | {fr.path for fr in gd.frames}
    strict = strict_decoders(ctx, prog)
    ID = Interp(gd)
    exact, calls = {}, {}
    szp = next(i for i in range(1, prog.fns[DECOMPRESS]["argc"] + 1) if prog.fns[DECOMPRESS]["locals"][i]["ty"] == "usize")
    for s in ID.sites():
        if family(s.fn):
            i = next((i for i in range(prog.fns[s.fn]["argc"]) if prog.fns[s.fn]["locals"][i + 1]["ty"] == "usize"), None)
            isp = i is not None and s.vals[i].op == "param" and s.vals[i].a[0] == szp
            # strict decoder: 'exact' when it is given the caller's size, 'wrong' otherwise
            exact[s.node] = "exact" if strict.get(s.fn) and isp else "wrong" if strict.get(s.fn) else ""
    ctx.notes.append("decoders that insist on the exact size: %s" % sorted(family(p) for p, v in strict.items() if v))
    for m in range(1, 256):
        ec = run_method(prog, gc, COMPRESS, m)
        ed = run_method(prog, gd, DECOMPRESS, m, {k: v for k, v in exact.items()})
        ctx.count("methods")
        if ec.exceeded or ed.exceeded:
            ctx.violation("undecided:%02x" % m, "too many paths for method 0x%02X" % m)
            continue
        # compress: the sequence behind every successful return (raw returns carry the same sequence as the events before them)
        cs = {}
        for (tag, last), cur in outcomes(ec).items():
            seq = last if last else tag
            cs.setdefault(tuple(f for f, _ in seq if f != "?"), cur)
        cs.pop((), None)
        if not cs:
            ctx.count("methods_refused")
            continue
        ds = {}
        for (tag, last), cur in outcomes(ed).items():
            ds.setdefault(tag, cur)
        good = None
        for c in cs:
            if all(tuple(x[0] for x in d) == c[::-1] for d in ds) and ds:
                good = c
        if good is None:
            c, cur = sorted(cs.items())[0]
            bad = [d for d in ds if tuple(x[0] for x in d) != c[::-1]]
            d = sorted(bad)[0] if bad else None
            ctx.violation("dispatch:%s" % "+".join(c), "method 0x%02X: compress applies %s but decompress undoes %s" %
                          (m, " then ".join(c), " then ".join(str(x[0]) for x in d) if d is not None else "nothing"), prog.fns[DECOMPRESS]["span"],
                          ed.trail(ds[d]) if d is not None else ec.trail(cur))
            continue
        if len(ctx.samples) < 12:
            ctx.sample("0x%02X: %s" % (m, " then ".join(good)))
        for d in ds:
            for i, x in enumerate(d):
                if x[1] == "wrong" or x[1] == "exact" and i != len(d) - 1:
                    ctx.violation("strict:%s" % x[0], "method 0x%02X: the %s decoder fails unless its output has exactly the size it is given, but decompress does not give it the size of that stage" % (m, x[0]),
                                  prog.fns[DECOMPRESS]["span"], ed.trail(ds[d]))
    compress_decision(ctx)
    sparse(ctx)
    ctx.floor("methods", 255)


def implied_ge0(facts, want):
    """want >= 0 follows from one fact (linear, constant slack)"""
    c, d = lin_parts(want)
    if not d and c >= 0:
        return True
    for t, pol in facts:
        if t.op != "lt":
            continue
        a, b = t.a
        f = add(add(b, a, -1), C(1), -1) if pol else add(a, b, -1)
        c, d = lin_parts(add(want, f, -1))
        if not d and c >= 0:
            return True
    return False


def compress_decision(ctx):
    prog = ctx.prog
    algos = {p for p in prog.fns if family(p)}
    g = Graph(prog, COMPRESS, inline=lambda q, fr: q.startswith("mopaq::compression") and not (set(prog.reachable([q])) & algos))
    I = Interp(g)
    data = mk("*", mk("param", data_arg(prog, COMPRESS), prog.fns[COMPRESS]["locals"][data_arg(prog, COMPRESS)].get("n") or ""))
    meth = method_arg(prog, COMPRESS)
    n = 0
    for nid, fr, x, st in I.steps():
        v = x.get("v") or {}
        if v.get("r") != "agg" or v.get("adt") != RESULT or v.get("vi") != OK or fr.fn["locals"][0]["ty"] != prog.fns[COMPRESS]["locals"][0]["ty"]:
            continue
        val = I.simp(I.operand(st, fr, v["ops"][0]))
        pf = path_facts(I, [nid], lambda c: c.op == "lt")
        for l in leaves(I, val):
            ctx.count("compress_results")
            n += 1
            if l is data or l is data.a[0]:
                ctx.sample("compress returns its input unchanged")
                continue
            want = add(add(I.len_of(data), I.len_of(l), -1), C(1), -1)
            sets = pf[nid] if pf else {frozenset()}
            for fs in sets:
                if not implied_ge0(fs, want):
                    ctx.violation("not-shorter", "compress can return %s, whose length is not known to be below the length of its input; readers tell compressed data by its size" % show(l)[:120], x.get("sp"))
                    break
            b = l
            while b.op in ("ext", "push") and not (b.op == "push" and b.a[0].op == "empty") and not (b.op == "ext" and b.a[0].op == "empty"):
                b = b.a[0]
            first = b.a[1] if b.op == "push" else None
            if b.op == "ext" and b.a[1].op == "agg" and b.a[1].a[0] == "array":
                first = b.a[1].a[3][0]
            if b.op == "agg" and b.a[0] == "array":
                first = b.a[3][0]
            if first is None or first.op != "param" or first.a[0] != meth:
                ctx.violation("method-byte", "compressed data does not start with the method byte asked for: %s" % show(l)[:120], x.get("sp"))
            ctx.sample("compress returns %s when %s" % (show(l)[:60], "; ".join(show(c) + ("" if p else " is false") for c, p in sorted(next(iter(sets)), key=lambda z: z[0].id))[:90]))
    ctx.floor("compress_results", 2)


SPARSE = "mopaq::compression::algorithms::sparse::"


def ev(t, env):
    """value of a term with some subterms known; None if unknown"""
    if t in env:
        return env[t]
    if t.op == "c":
        return t.a[0]
    if t.op == "cast":
        v = ev(t.a[1], env)
        m = re.match(r"[ui](\d+)$", str(t.a[0]))
        return None if v is None else v & ((1 << (int(m.group(1)) if m else 64)) - 1)
    if t.op == "lin":
        c, d = lin_parts(t)
        r = c
        for x, k in d.items():
            v = ev(x, env)
            if v is None:
                return None
            r += k * v
        return r
    if t.op in ("and", "or", "xor", "shl", "shr", "lt", "eq", "min", "max"):
        vs = [ev(x, env) for x in t.a if hasattr(x, "op")]
        if t.op == "and" and any(v == 0 for v in vs):
            return 0
        if any(v is None for v in vs):
            return None
        r = vs[0]
        for v in vs[1:]:
            r = {"and": lambda: r & v, "or": lambda: r | v, "xor": lambda: r ^ v, "shl": lambda: r << v, "shr": lambda: r >> v, "lt": lambda: int(r < v),
                 "eq": lambda: int(r == v), "min": lambda: min(r, v), "max": lambda: max(r, v)}[t.op]()
        return r
    if t.op == "not":
        v = ev(t.a[0], env)
        return None if v is None else int(not v)
    return None


def holds(fs, env):
    for c, pol in fs:
        v = ev(c, env)
        if v is not None and bool(v) != pol:
            return False
    return True


def invariant(I, t):
    """a loop phi that never changes is its initial value"""
    while t.op == "phi" and t in I.phi_in:
        vs = {v for v in I.phi_in[t].values() if v is not t}
        if len(vs) != 1:
            break
        t = vs.pop()
    return t


def norm(I, t):
    c, d = lin_parts(t)
    out = {}
    for x, k in d.items():
        x = invariant(I, x)
        out[x] = out.get(x, 0) + k
    return c, {x: k for x, k in out.items() if k}


def bounds(I, t, fs, loops):
    """(lo, hi) of a term that counts something, from the facts at the site and simple loop counters"""
    t = invariant(I, t)
    b = Intervals.bounds(fs).get(t, [0, None])
    lo, hi = b[0], b[1]
    if t.op == "c":
        return t.a[0], t.a[0]
    if t.op == "min":
        los, his = zip(*[bounds(I, x, fs, loops) for x in t.a])
        hs = [h for h in list(his) + [hi] if h is not None]
        return max(lo, min(los)), min(hs) if hs else None
    if t.op == "cast":
        l, h = bounds(I, t.a[1], fs, loops)
        return max(lo, l), h if hi is None else hi if h is None else min(h, hi)
    c, d = norm(I, t)
    if hi is None and c == 0 and sorted(d.values()) == [-1, 1]:
        ph = next(x for x, k in d.items() if k == 1)
        init = next(x for x, k in d.items() if k == -1)
        if ph.op == "phi" and ph in I.phi_in:
            ups, ok = [], True
            for (p, lab), v in I.phi_in[ph].items():
                if invariant(I, v) is init:
                    continue
                c2, d2 = lin_parts(v)
                if d2 != {ph: 1} or c2 <= 0:
                    ok = False
                    continue
                pf = path_facts(I, [p], lambda x: x.op == "lt")
                for fs2 in (pf or {p: {frozenset()}})[p]:
                    best = None
                    for x, pol in fs2:
                        a, y = x.a
                        if pol and is_c(y) and norm(I, a) == (0, d):
                            best = y.a[0] - 1 + c2 if best is None else min(best, y.a[0] - 1 + c2)
                        if not pol and is_c(a) and norm(I, y) == (0, d):
                            best = a.a[0] + c2 if best is None else min(best, a.a[0] + c2)
                    if best is None:
                        ok = False
                    else:
                        ups.append(best)
            if ok and ups:
                hi = max(ups)
    return lo, hi


def sparse(ctx):
    prog = ctx.prog
    cp, dp = SPARSE + "compress", SPARSE + "decompress"
    if not (ctx.need(cp) and ctx.need(dp)):
        return
    inl = lambda q, fr: q.startswith(SPARSE)
    gd = Graph(prog, dp, inline=inl)
    D = Interp(gd)
    loops = natural_loops(gd)
    body = set().union(*loops.values()) if loops else set()
    inp = mk("param", data_arg(prog, dp), prog.fns[dp]["locals"][data_arg(prog, dp)].get("n") or "")
    ctl, acts = set(), []
    for s in D.sites():
        n = s.fn.rsplit("::", 1)[-1]
        if s.node not in body:
            continue
        if n == "resize" and len(s.vals) == 3:
            acts.append(("zeros", s, add(s.vals[1], D.len_of(D.dv(s.st, s.vals[0])), -1)))
        elif n in ("extend_from_slice", "extend"):
            acts.append(("literal", s, D.len_of(D.dv(s.st, s.vals[1]))))
    for _, s, cnt in acts:
        for x in subterms(cnt):
            if x.op == "idx" and any(y is inp for y in subterms(x)):
                ctl.add(x)
    if len(ctl) != 1 or {a[0] for a in acts} != {"zeros", "literal"}:
        ctx.violation("sparse-decoder", "the sparse decoder's control byte could not be identified", prog.fns[dp]["span"])
        return
    c = ctl.pop()
    pf = path_facts(D, [s.node for _, s, _ in acts], lambda x: c in subterms(x))
    cls = {}
    for v in range(256):
        e = {c: v}
        hit = [(k, ev(cnt, e)) for k, s, cnt in acts if any(holds(fs, e) for fs in pf[s.node])]
        cls[v] = hit[0] if len(hit) == 1 else ("stop", None) if not hit else ("ambiguous", None)
    ctx.count("sparse_control_bytes", 256)
    ge = Graph(prog, cp, inline=inl)
    I = Interp(ge)
    loops = natural_loops(ge)
    body = set().union(*loops.values()) if loops else set()
    npush = 0
    ends = []
    for s in I.sites():
        n = s.fn.rsplit("::", 1)[-1]
        if n != "push":
            continue
        npush += 1
        val = s.vals[1]
        if is_c(val):
            ends.append((s, val.a[0]))
            continue
        q = val
        while q.op in ("cast", "or", "and", "lin") and not (q.op == "lin" and len(lin_parts(q)[1]) > 1):
            q = q.a[1] if q.op == "cast" else next((x for x in q.a if hasattr(x, "op") and not is_c(x)), None) if q.op != "lin" else next(iter(lin_parts(q)[1]))
        sets = (path_facts(I, [s.node], lambda x: x.op in ("lt", "eq")) or {s.node: {frozenset()}})[s.node]
        lo, hi = 255, 0
        for fs in sets:
            l, h = bounds(I, q, fs, loops)
            lo, hi = min(lo, l), None if h is None or hi is None else max(hi, h)
        if hi is None or hi > 255:
            ctx.violation("sparse-bound", "the run length %s encoded by the sparse encoder is not bounded to what a control byte can hold" % show(q)[:100], s.sp)
            continue
        # literal: the q bytes of the run follow the control byte
        lit = any(t.op == "ext" and t.a[0].op == "push" and t.a[0].a[1] is val and add(I.len_of(t.a[1]), q, -1) is C(0)
                  for s2 in I.sites() if s2.fn.rsplit("::", 1)[-1] in ("extend_from_slice", "extend") for t in [I.dv(s2.st, s2.vals[0])])
        kind = "literal" if lit else "zeros"
        ctx.count("sparse_runs_checked", hi - lo + 1)
        for n_ in range(lo, hi + 1):
            b = ev(val, {q: n_})
            if b is None or cls[b & 255] != (kind, n_):
                ctx.violation("sparse-run:%s" % kind, "a run of %d %s is encoded as 0x%02X, which the decoder takes for %s %s" %
                              (n_, "zeros" if kind == "zeros" else "literal bytes", (b or 0) & 255, cls[(b or 0) & 255][0], cls[(b or 0) & 255][1]), s.sp)
                break
        ctx.sample("sparse %s run: %s in [%d, %d]" % (kind, show(q)[:60], lo, hi))
    for s, v in ends:
        if cls[v & 255][0] != "stop":
            ctx.violation("sparse-end", "the end marker 0x%02X is taken by the decoder for %s" % (v, cls[v & 255][0]), s.sp)
        if s.node in body:
            ctx.violation("sparse-end-inside", "the end marker is written inside the data", s.sp)
    if npush < 3 or not ends:
        ctx.violation("sparse-encoder", "the sparse encoder's control bytes could not be identified", prog.fns[cp]["span"])
