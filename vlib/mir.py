"""Program model over the extracted MIR facts: functions, call graph, desugaring of combinators, inlining into one
control-flow graph per entry point."""
import json, os, re

CRATES = ["mopaq", "storm", "storm_cli"]
OK, ERR = 0, 1
NONE, SOME = 0, 1


class Program:
    def __init__(self, facts_dir):
        self.fns, self.consts, self.statics, self.adts, self.unsafe_blocks, self.impls = {}, {}, {}, {}, [], []
        self.crates = {}
        for c in CRATES:
            d = json.load(open(os.path.join(facts_dir, c + ".json")))
            self.crates[c] = d
            for f in d["fns"]:
                f["crate"] = c
                self.fns[f["path"]] = f
            for x in d["consts"]:
                self.consts[x["path"]] = x
            for x in d["statics"]:
                x["crate"] = c
                self.statics[x["path"]] = x
            for x in d["adts"]:
                self.adts[x["path"]] = x
            self.unsafe_blocks += [(c, b) for b in d["unsafe_blocks"]]
            self.impls += d["impls"]
        self._prep = {}
        self._closures_of = {}
        for p, f in self.fns.items():
            if f.get("parent"):
                self._closures_of.setdefault(f["parent"], []).append(p)
        self._overrides = {}
        for p, f in self.fns.items():
            if f.get("impl_trait"):
                name = p.rsplit("::", 1)[-1]
                self._overrides.setdefault((f["impl_trait"].split("<")[0], name), []).append(p)

    # ---- call resolution
    def callee_paths(self, k):
        """workspace functions a call operand {'fn':..} may run (trait methods: the override(s) or the default body)."""
        out = []
        res = k.get("res")
        p = k.get("fn")
        if res and res in self.fns:
            return [res]
        if p in self.fns:
            out.append(p)
        if k.get("trait") and not res:
            name = p.rsplit("::", 1)[-1]
            st = (k.get("self") or "").lstrip("&").replace("mut ", "")
            for o in self._overrides.get((k["trait"].split("<")[0], name), []):
                s = self.fns[o].get("impl_self") or ""
                if generic_self(st) or head(s) == head(st):
                    out.append(o)
        return out

    def inline_target(self, k):
        """the one workspace function a call certainly runs, or None"""
        res, p = k.get("res"), k.get("fn")
        if p == "core::convert::Into::into" and len(k.get("ga") or ()) == 2:
            q = "<%s as core::convert::From<%s>>::from" % (k["ga"][1], k["ga"][0])
            if q in self.fns:
                return q
        if res:
            return res if res in self.fns else None
        if k.get("trait"):
            name = p.rsplit("::", 1)[-1]
            ov = self._overrides.get((k["trait"].split("<")[0], name), [])
            if not ov:
                return p if p in self.fns else None
            st = k.get("self") or ""
            if k.get("spec") and not any(self.fns[o].get("gen") for o in ov):     # a concrete type put in for a parameter
                hit = [o for o in ov if self.fns[o].get("impl_self") == st]
                return hit[0] if len(hit) == 1 else None
            return None
        return p if p in self.fns else None

    def specialised(self, path, sub):
        k = (path, sub)
        if k not in self._prep:
            f = dict(self.fns[path])
            r = re.compile(r"(?<![\w:'])(%s)(?![\w:])" % "|".join(re.escape(a) for a, _ in sub))
            d = dict(sub)

            def go(x, key=None):
                if isinstance(x, str):
                    return r.sub(lambda m: d[m.group(1)], x) if key not in NOSUB else x
                if isinstance(x, list):
                    return [go(y, key) for y in x]
                if isinstance(x, dict):
                    y = {a: go(b, a) for a, b in x.items()}
                    if "trait" in y and y.get("self") != x.get("self"):
                        y["spec"] = True
                    return y
                return x
            f["locals"], f["blocks"] = go(f["locals"]), go(f["blocks"])
            self._prep[k] = prepare(self, f)
        return self._prep[k]

    def closures(self, parent):
        return self._closures_of.get(parent, [])

    def prepared(self, path):
        if path not in self._prep:
            self._prep[path] = prepare(self, self.fns[path])
        return self._prep[path]

    # ---- call graph (over-approximate): direct calls, closures created, fn items mentioned, trait-method overrides
    def callgraph(self):
        if hasattr(self, "_cg"):
            return self._cg
        cg, ext = {}, {}
        for p, f in self.fns.items():
            outs, exts = [], []
            for bi, b in enumerate(f["blocks"]):
                if b["cl"]:
                    continue
                for kind, k, sp in block_refs(b):
                    if kind == "closure":
                        outs.append((k, sp, bi))
                        continue
                    if kind == "dyn":
                        exts.append(("DYN:" + str(k), sp, bi, {}))
                        continue
                    loc = self.callee_paths(k)
                    for q in loc:
                        outs.append((q, sp, bi))
                    if not loc or k.get("trait"):
                        exts.append((k.get("res") or k.get("fn"), sp, bi, k))
            cg[p], ext[p] = outs, exts
        self._cg = (cg, ext)
        return self._cg

    def reachable(self, roots):
        """workspace functions reachable from roots -> parent map for path reporting"""
        cg, _ = self.callgraph()
        par = {r: None for r in roots}
        work = list(roots)
        while work:
            p = work.pop()
            for q, sp, _b in cg.get(p, []):
                if q not in par and q in self.fns:
                    par[q] = (p, sp)
                    work.append(q)
        return par

    def chain(self, par, p):
        out = [p]
        while par.get(p):
            p = par[p][0]
            out.append(p)
        return " <- ".join(out)


def head(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].replace("mut ", "", 1).strip()
    return t.split("<")[0]


def generic_self(st):
    return bool(re.fullmatch(r"[A-Z][A-Za-z0-9]*|impl .*|dyn .*|Self", st or "Self")) or not st


def op_consts(o):
    if "k" in o:
        yield o["k"]


def rv_operands(v):
    r = v["r"]
    if r in ("use", "cast", "un", "repeat"):
        yield v["o"]
    elif r == "bin":
        yield v["a"]
        yield v["b"]
    elif r == "agg":
        for o in v["ops"]:
            yield o


def block_refs(b):
    """('fn', k, span) for every fn item mentioned or called; ('closure', def, span) for every closure created."""
    for s in b["s"]:
        v = s.get("v")
        if not v:
            continue
        for o in rv_operands(v):
            if "k" in o and o["k"].get("fn"):
                yield "fn", o["k"], s.get("sp")
        if v["r"] == "agg" and v.get("kind") == "closure":
            yield "closure", v["def"], s.get("sp")
    t = b["t"]
    if t["t"] == "call":
        f = t["f"]
        if "k" in f and f["k"].get("fn"):
            yield "fn", f["k"], t.get("sp")
        elif "dyn" in f:
            yield "dyn", f.get("ty"), t.get("sp")
        for o in t["args"]:
            if "k" in o and o["k"].get("fn"):
                yield "fn", o["k"], t.get("sp")
    elif t["t"] == "drop":
        pass


# ------------------------------------------------------------------------------------------------------- desugaring

RESULT = "core::result::Result"
OPTION = "core::option::Option"


NOSUB = {"n", "fn", "res", "variant", "fields", "def", "name", "t", "r", "k", "sp", "op", "kind", "trait"}


def _mv(l, *projs):
    return {"m": [l, [list(p) for p in projs], "?"]} if projs else {"m": [l]}


def _agg(adt, vi, name, ops):
    return {"r": "agg", "kind": "adt", "adt": adt, "variant": name, "vi": vi, "fields": ["0"] if ops else [], "ops": ops}


class _B:
    """adds synthetic blocks/locals to a copy of a function"""

    def __init__(self, f):
        self.f = f
        self.locals = list(f["locals"])
        self.blocks = list(f["blocks"])

    def local(self, ty="?"):
        self.locals.append({"ty": ty, "syn": True})
        return len(self.locals) - 1

    def block(self, stmts, term, cl=False):
        self.blocks.append({"s": stmts, "t": term, "cl": cl, "syn": True})
        return len(self.blocks) - 1


VN = {RESULT: ["Ok", "Err"], OPTION: ["None", "Some"]}


def prepare(prog, f):
    """returns a copy of f with the Result/Option combinators and `?` plumbing expanded into explicit control flow"""
    b = _B(f)
    for i in range(len(f["blocks"])):
        blk = b.blocks[i]
        t = blk["t"]
        if t["t"] != "call" or blk["cl"] or "k" not in t["f"] or t.get("bb") is None:
            continue
        new = desugar_call(b, t)
        if new is not None:
            stmts, term = new
            b.blocks[i] = {"s": blk["s"] + stmts, "t": term, "cl": blk["cl"]}
    unroll_arrays(b)
    g = dict(f)
    g["locals"], g["blocks"] = b.locals, b.blocks
    return g


def desugar_call(b, t):
    p = t["f"]["k"].get("fn") or ""
    args, dest, nxt, sp = t["args"], t["dest"], t["bb"], t.get("sp")
    k = t["f"]["k"]

    def asg(place, v):
        return {"p": place, "v": v, "sp": sp}

    def use(o):
        return {"r": "use", "o": o}

    def goto(bb):
        return {"t": "goto", "bb": bb, "sp": sp}

    def switch_variant(l, adt, targets, deref=False):
        """stmts+term switching on the discriminant of local l; targets by variant index"""
        d = b.local("isize")
        pl = [l, [["d", "?"]], "?"] if deref else [l]
        return [asg([d], {"r": "discr", "p": pl, "ty": adt})], {
            "t": "switch", "o": {"m": [d]}, "ty": "isize", "vals": [[0, targets[0]]], "else": targets[1], "sp": sp}

    def callclo(o, cargs, cdest, bb):
        return {"t": "call", "f": {"clo": o}, "args": cargs, "dest": cdest, "bb": bb, "uw": "continue", "sp": sp}

    def payload(l, adt, vi, deref=False):
        pr = ([["d", "?"]] if deref else []) + [["dc", VN[adt][vi], vi], ["f", 0, "0", adt]]
        return {"m": [l, pr, "?"]}

    if p == "core::ops::try_trait::Try::branch":
        st = (k.get("self") or (k.get("ga") or [""])[0])
        adt = OPTION if head(st) == OPTION else RESULT if head(st) == RESULT else None
        if adt is None:
            return None
        good = OK if adt == RESULT else SOME
        r = b.local(st)
        CF = "core::ops::control_flow::ControlFlow"
        bg = b.block([asg(dest, {"r": "agg", "kind": "adt", "adt": CF, "variant": "Continue", "vi": 0, "fields": ["0"],
                                 "ops": [payload(r, adt, good)]})], goto(nxt))
        res = b.local(st)
        if adt == RESULT:
            bb = b.block([asg([res], _agg(RESULT, ERR, "Err", [payload(r, adt, ERR)])),
                          asg(dest, {"r": "agg", "kind": "adt", "adt": CF, "variant": "Break", "vi": 1, "fields": ["0"],
                                     "ops": [{"m": [res]}]})], goto(nxt))
        else:
            bb = b.block([asg([res], _agg(OPTION, NONE, "None", [])),
                          asg(dest, {"r": "agg", "kind": "adt", "adt": CF, "variant": "Break", "vi": 1, "fields": ["0"],
                                     "ops": [{"m": [res]}]})], goto(nxt))
        s, term = switch_variant(r, adt, [bg, bb] if adt == RESULT else [bb, bg])
        return [asg([r], use(args[0]))] + s, term
    if p == "core::ops::try_trait::FromResidual::from_residual":
        st = (k.get("self") or (k.get("ga") or [""])[0])
        if head(st) == RESULT:
            r = b.local(RESULT)
            return [asg([r], use(args[0])), asg(dest, _agg(RESULT, ERR, "Err", [payload(r, RESULT, ERR)]))], goto(nxt)
        if head(st) == OPTION:
            return [asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt)
        return None
    if p in ("core::iter::traits::iterator::Iterator::for_each", "core::iter::traits::iterator::Iterator::try_for_each") and len(args) == 2:
        return desugar_for_each(b, p, t, asg, use, goto, switch_variant, callclo, payload)
    m = re.fullmatch(r"core::ptr::(mut|const)_ptr::<impl \*\w+ T>::(as_mut|as_ref)", p)
    if m and len(args) == 1:
        x, c, r = b.local("*%s %s" % (m.group(1), (k.get("ga") or ["?"])[0])), b.local("bool"), b.local("?")
        no = b.block([asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt))
        yes = b.block([asg([r], {"r": "ref", "mut": "mut" in m.group(2), "p": [x, [["d", "?"]], "?"]}),
                       asg(dest, _agg(OPTION, SOME, "Some", [{"m": [r]}]))], goto(nxt))
        sw = b.block([], {"t": "switch", "o": {"m": [c]}, "ty": "bool", "vals": [[0, yes]], "else": no, "sp": sp})
        return [asg([x], use(args[0]))], {"t": "call", "f": {"k": {"fn": "core::ptr::%s_ptr::<impl *%s T>::is_null" % (m.group(1), m.group(1)), "ga": k.get("ga")}},
                                          "args": [{"c": [x]}], "dest": [c], "bb": sw, "uw": "continue", "sp": sp}
    if p in ("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some") and len(args) == 2:
        c, x = b.local("bool"), b.local("?")
        no = b.block([asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt))
        if p.endswith("then"):
            end = b.block([asg(dest, _agg(OPTION, SOME, "Some", [{"m": [x]}]))], goto(nxt))
            yes = b.block([], callclo(args[1], [], [x], end))
        else:
            yes = b.block([asg(dest, _agg(OPTION, SOME, "Some", [args[1]]))], goto(nxt))
        return [asg([c], use(args[0]))], {"t": "switch", "o": {"m": [c]}, "ty": "bool", "vals": [[0, no]], "else": yes, "sp": sp}
    m = re.fullmatch(r"core::(result::Result|option::Option)::<.*?>::(\w+)", p)
    if not m:
        return None
    adt = "core::" + m.group(1)
    name = m.group(2)
    isres = adt == RESULT
    good, bad = (OK, ERR) if isres else (SOME, NONE)

    def two(mk_good, mk_bad, ref=False):
        """switch on args[0]; mk_* (local) -> list of statements and terminator"""
        r = b.local("?")
        bg = b.block(*mk_good(r))
        bb = b.block(*mk_bad(r))
        tg = [None, None]
        tg[good], tg[bad] = bg, bb
        s, term = switch_variant(r, adt, tg, deref=ref)
        return [asg([r], use(args[0]))] + s, term

    def keep_bad(r):
        if isres:
            return [asg(dest, _agg(RESULT, ERR, "Err", [payload(r, adt, ERR)]))], goto(nxt)
        return [asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt)

    def keep_good(r):
        return [asg(dest, _agg(adt, good, VN[adt][good], [payload(r, adt, good)]))], goto(nxt)

    def const_bool(v):
        return lambda r: ([asg(dest, use({"k": {"ty": "bool", "v": v}}))], goto(nxt))

    if name == "map_err":
        def bad_(r):
            x = b.local("?")
            end = b.block([asg(dest, _agg(RESULT, ERR, "Err", [{"m": [x]}]))], goto(nxt))
            return [], callclo(args[1], [payload(r, adt, ERR)], [x], end)
        return two(keep_good, bad_)
    if name == "map":
        def good_(r):
            x = b.local("?")
            end = b.block([asg(dest, _agg(adt, good, VN[adt][good], [{"m": [x]}]))], goto(nxt))
            return [], callclo(args[1], [payload(r, adt, good)], [x], end)
        return two(good_, keep_bad)
    if name == "and_then":
        return two(lambda r: ([], callclo(args[1], [payload(r, adt, good)], dest, nxt)), keep_bad)
    if name == "or_else":
        return two(keep_good, lambda r: ([], callclo(args[1], [payload(r, adt, bad)] if isres else [], dest, nxt)))
    if name == "ok":
        return two(lambda r: ([asg(dest, _agg(OPTION, SOME, "Some", [payload(r, adt, OK)]))], goto(nxt)),
                   lambda r: ([asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt)))
    if name == "err" and isres:
        return two(lambda r: ([asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt)),
                   lambda r: ([asg(dest, _agg(OPTION, SOME, "Some", [payload(r, adt, ERR)]))], goto(nxt)))
    if name == "ok_or":
        return two(lambda r: ([asg(dest, _agg(RESULT, OK, "Ok", [payload(r, adt, SOME)]))], goto(nxt)),
                   lambda r: ([asg(dest, _agg(RESULT, ERR, "Err", [args[1]]))], goto(nxt)))
    if name == "ok_or_else":
        def bad_(r):
            x = b.local("?")
            end = b.block([asg(dest, _agg(RESULT, ERR, "Err", [{"m": [x]}]))], goto(nxt))
            return [], callclo(args[1], [], [x], end)
        return two(lambda r: ([asg(dest, _agg(RESULT, OK, "Ok", [payload(r, adt, SOME)]))], goto(nxt)), bad_)
    if name == "unwrap_or":
        return two(lambda r: ([asg(dest, use(payload(r, adt, good)))], goto(nxt)),
                   lambda r: ([asg(dest, use(args[1]))], goto(nxt)))
    if name == "unwrap_or_else":
        return two(lambda r: ([asg(dest, use(payload(r, adt, good)))], goto(nxt)),
                   lambda r: ([], callclo(args[1], [payload(r, adt, bad)] if isres else [], dest, nxt)))
    if name == "unwrap_or_default":
        return two(lambda r: ([asg(dest, use(payload(r, adt, good)))], goto(nxt)),
                   lambda r: ([], {"t": "call", "f": {"k": {"fn": "core::default::Default::default"}}, "args": [],
                                   "dest": dest, "bb": nxt, "uw": "continue", "sp": sp}))
    if name in ("unwrap", "expect"):
        return two(lambda r: ([asg(dest, use(payload(r, adt, good)))], goto(nxt)),
                   lambda r: ([], {"t": "panic", "sp": sp, "what": "%s::%s" % (adt.rsplit("::", 1)[-1], name)}))
    if name in ("is_ok", "is_some"):
        return two(const_bool(1), const_bool(0), ref=True)
    if name in ("is_err", "is_none"):
        return two(const_bool(0), const_bool(1), ref=True)
    if name in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
        def good_(r):
            x = b.local("?")
            pl = [r, [["d", "?"], ["dc", VN[adt][good], good], ["f", 0, "0", adt]], "?"]
            return [asg([x], {"r": "ref", "mut": "mut" in name, "p": pl}),
                    asg(dest, _agg(adt, good, VN[adt][good], [{"m": [x]}]))], goto(nxt)
        def bad_(r):
            if not isres:
                return [asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt)
            x = b.local("?")
            pl = [r, [["d", "?"], ["dc", "Err", ERR], ["f", 0, "0", adt]], "?"]
            return [asg([x], {"r": "ref", "mut": False, "p": pl}), asg(dest, _agg(RESULT, ERR, "Err", [{"m": [x]}]))], goto(nxt)
        return two(good_, bad_, ref=True)
    if name in ("copied", "cloned") and not isres:
        def good_(r):
            x = b.local("?")
            return [asg([x], use(payload(r, adt, SOME))),
                    asg(dest, _agg(OPTION, SOME, "Some", [{"c": [x, [["d", "?"]], "?"]}]))], goto(nxt)
        return two(good_, keep_bad)
    if name == "map_or":
        return two(lambda r: ([], callclo(args[2], [payload(r, adt, good)], dest, nxt)),
                   lambda r: ([asg(dest, use(args[1]))], goto(nxt)))
    if name == "map_or_else":
        return two(lambda r: ([], callclo(args[2], [payload(r, adt, good)], dest, nxt)),
                   lambda r: ([], callclo(args[1], [payload(r, adt, bad)] if isres else [], dest, nxt)))
    if name in ("is_some_and", "is_ok_and"):
        return two(lambda r: ([], callclo(args[1], [payload(r, adt, good)], dest, nxt)), const_bool(0))
    if name == "filter" and not isres:
        def good_(r):
            x, rx, c = b.local("?"), b.local("?"), b.local("bool")
            yes = b.block([asg(dest, _agg(OPTION, SOME, "Some", [{"m": [x]}]))], goto(nxt))
            no = b.block([asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt))
            sw = b.block([], {"t": "switch", "o": {"m": [c]}, "ty": "bool", "vals": [[0, no]], "else": yes, "sp": sp})
            return [asg([x], use(payload(r, adt, SOME))), asg([rx], {"r": "ref", "mut": False, "p": [x]})], callclo(args[1], [{"m": [rx]}], [c], sw)
        return two(good_, keep_bad)
    if name == "is_err_and":
        return two(const_bool(0), lambda r: ([], callclo(args[1], [payload(r, adt, ERR)], dest, nxt)))
    if name in ("inspect", "inspect_err"):
        hit = good if name == "inspect" else bad
        def see(r):
            x, y = b.local("?"), b.local("?")
            pl = [r, [["dc", VN[adt][hit], hit], ["f", 0, "0", adt]], "?"]
            end = b.block([asg(dest, _agg(adt, hit, VN[adt][hit], [payload(r, adt, hit)]))], goto(nxt))
            return [asg([x], {"r": "ref", "mut": False, "p": pl})], callclo(args[1], [{"m": [x]}], [y], end)
        return two(see, keep_bad) if name == "inspect" else two(keep_good, see)
    if name == "flatten" and (isres or True):
        return two(lambda r: ([asg(dest, use(payload(r, adt, good)))], goto(nxt)), keep_bad)
    if name == "take" and not isres:
        x = b.local("?")
        return [asg([x], use(args[0])), asg(dest, use({"c": [x, [["d", "?"]], "?"]})), asg([x, [["d", "?"]], "?"], _agg(OPTION, NONE, "None", []))], goto(nxt)
    if name == "or":
        return two(keep_good, lambda r: ([asg(dest, use(args[1]))], goto(nxt)))
    if name == "and":
        return two(lambda r: ([asg(dest, use(args[1]))], goto(nxt)), keep_bad)
    if name == "is_none_or":
        return two(lambda r: ([], callclo(args[1], [payload(r, adt, good)], dest, nxt)), const_bool(1))
    return None


def desugar_for_each(b, p, t, asg, use, goto, switch_variant, callclo, payload):
    """iter.for_each(f) / iter.try_for_each(f): the loop they stand for"""
    args, dest, nxt, sp = t["args"], t["dest"], t["bb"], t.get("sp")
    tries = p.endswith("try_for_each")
    dty = b.locals[dest[0]]["ty"] if len(dest) == 1 or not dest[1] else dest[2]
    adt = RESULT if head(dty) == RESULT else OPTION if head(dty) == OPTION else None
    if tries and adt is None:
        return None
    it, rf, o, x, r = (b.local("?") for _ in range(5))
    pl = args[0].get("m") or args[0].get("c")
    if pl is None:
        return None
    byref = tries     # try_for_each takes &mut self
    unit = {"r": "agg", "kind": "tuple", "adt": "", "variant": None, "vi": None, "fields": [], "ops": []}
    fn = {"fn": "core::iter::traits::iterator::Iterator::next", "trait": "core::iter::traits::iterator::Iterator", "self": "?", "ga": []}
    # the blocks refer to one another: fix their numbers first
    top = b.block([], goto(nxt))
    if tries:
        u = b.local("()")
        good = OK if adt == RESULT else SOME
        done = b.block([asg([u], unit), asg(dest, _agg(adt, good, VN[adt][good], [{"m": [u]}]))], goto(nxt))
        if adt == RESULT:
            fail = b.block([asg(dest, _agg(RESULT, ERR, "Err", [payload(r, RESULT, ERR)]))], goto(nxt))
        else:
            fail = b.block([asg(dest, _agg(OPTION, NONE, "None", []))], goto(nxt))
        s2, t2 = switch_variant(r, adt, [top, fail] if adt == RESULT else [fail, top])
        after = b.block(s2, t2)
    else:
        done = b.block([asg(dest, unit)], goto(nxt))
        after = top
    body = b.block([asg([x], use(payload(o, OPTION, SOME)))], callclo(args[1], [{"m": [x]}], [r], after))
    s1, t1 = switch_variant(o, OPTION, [done, body])
    sw = b.block(s1, t1)
    call = {"t": "call", "f": {"k": fn}, "args": [{"m": [rf]}], "dest": [o], "bb": sw, "uw": "continue", "sp": sp}
    if byref:
        b.blocks[top] = {"s": [asg([rf], {"r": "ref", "mut": True, "p": [it, [["d", "?"]], "?"]})], "t": call, "cl": False, "syn": True}
    else:
        b.blocks[top] = {"s": [asg([rf], {"r": "ref", "mut": True, "p": [it]})], "t": call, "cl": False, "syn": True}
    return [asg([it], use(args[0]))], goto(top)


def unroll_arrays(b):
    """for x in [a, b, c] { .. } with a short array: the body once per element"""
    for _ in range(4):
        if not _unroll_one(b):
            return


def _unroll_one(b):
    into = {}
    for i, blk in enumerate(b.blocks):
        t = blk["t"]
        if blk["cl"] or t["t"] != "call" or "k" not in t["f"] or (t["f"]["k"].get("fn") != "core::iter::traits::collect::IntoIterator::into_iter"):
            continue
        a = t["args"][0].get("m") or t["args"][0].get("c")
        if a is None or (len(a) > 1 and a[1]):
            continue
        m = re.fullmatch(r"\[(.*); (\d+)\]", b.locals[a[0]]["ty"])
        if m and 0 < int(m.group(2)) <= 12 and len(t["dest"]) == 1 or m and not t["dest"][1]:
            into[t["dest"][0]] = (i, a[0], int(m.group(2)))
    if not into:
        return False
    # copies of the iterator
    alias = dict(into)
    for blk in b.blocks:
        if blk["cl"]:
            continue
        for s in blk["s"]:
            v = s.get("v") or {}
            if v.get("r") == "use" and len(s["p"]) == 1 and "m" in v["o"] and len(v["o"]["m"]) == 1 and v["o"]["m"][0] in into:
                alias[s["p"][0]] = into[v["o"]["m"][0]]
    for h, blk in enumerate(b.blocks):
        t = blk["t"]
        if blk["cl"] or t["t"] != "call" or "k" not in t["f"] or t["f"]["k"].get("fn") != "core::iter::traits::iterator::Iterator::next" or t.get("bb") is None:
            continue
        a = t["args"][0].get("m") or t["args"][0].get("c")
        it = None
        refs = {s["p"][0]: s["v"]["p"] for s in blk["s"] if (s.get("v") or {}).get("r") == "ref" and len(s["p"]) == 1}
        x = a[0] if a else None
        for _ in range(4):
            if x in refs:
                q = refs[x]
                if len(q) == 1 or not q[1]:
                    it = q[0]
                    break
                if [z[0] for z in q[1]] == ["d"]:
                    x = q[0]
                    continue
            break
        if it not in alias:
            continue
        src, arr, n = alias[it]
        if any(it == (s.get("p") or [None])[0] for blk2 in b.blocks if not blk2["cl"] for s in blk2["s"] if (s.get("v") or {}).get("r") != "use"):
            continue
        # natural loop of h
        preds = {}
        for i, bl in enumerate(b.blocks):
            if not bl["cl"]:
                for w in raw_succ(bl["t"]):
                    preds.setdefault(w, []).append(i)
        fwd, work = set(), [h]
        while work:
            v = work.pop()
            if v in fwd:
                continue
            fwd.add(v)
            work += raw_succ(b.blocks[v]["t"])
        back = [v for v in preds.get(h, []) if v in fwd]
        if not back:
            continue
        loop, work = {h}, list(back)
        while work:
            v = work.pop()
            if v in loop:
                continue
            loop.add(v)
            work += [p for p in preds.get(v, []) if p in fwd]
        if len(loop) > 60 or src in loop:
            continue
        swb = b.blocks[t["bb"]]
        if t["bb"] not in loop or swb["t"]["t"] != "switch" or len(preds.get(t["bb"], [])) != 1:
            continue
        dd = [s for s in swb["s"] if (s.get("v") or {}).get("r") == "discr" and s["v"]["p"][0] == t["dest"][0]]
        so = swb["t"]["o"].get("m") or swb["t"]["o"].get("c")
        if not dd or so is None or so[0] != dd[-1]["p"][0]:
            continue
        tv = dict((v, x) for v, x in swb["t"]["vals"])
        none_t, some_t = tv.get(0, swb["t"].get("else")), tv.get(1, swb["t"].get("else"))
        if none_t is None or some_t is None:
            continue
        keep = b.local("?")
        sb = b.blocks[src]
        b.blocks[src] = dict(sb, s=sb["s"] + [{"p": [keep], "v": {"r": "use", "o": sb["t"]["args"][0]}, "sp": sb["t"].get("sp")}])
        maps = []
        for i in range(n):
            mp = {h: h} if i == 0 else {}
            for v in sorted(loop):
                if i > 0:
                    mp[v] = b.block([], {"t": "goto", "bb": 0})
                else:
                    mp[v] = v
            maps.append(mp)
        end = b.block([], {"t": "goto", "bb": 0})
        orig = {v: b.blocks[v] for v in loop}
        for i in range(n):
            mp = maps[i]
            nxt = maps[i + 1][h] if i + 1 < n else end
            for v in sorted(loop):
                bl = orig[v]
                tt = bl["t"]
                if v == h:
                    some = _agg(OPTION, SOME, "Some", [{"c": [keep, [["ci", i, False, n]], "?"]}])
                    st = bl["s"] + [{"p": tt["dest"], "v": some, "sp": tt.get("sp")}] + swb["s"]
                    nt = {"t": "goto", "bb": nxt if some_t == h else mp.get(some_t, some_t), "sp": tt.get("sp")}
                    b.blocks[mp[v]] = {"s": st, "t": nt, "cl": False}
                    continue
                b.blocks[mp[v]] = {"s": bl["s"], "t": retarget(tt, lambda w: nxt if w == h else mp.get(w, w)), "cl": False}
        ht = orig[h]["t"]
        b.blocks[end] = {"s": orig[h]["s"] + [{"p": ht["dest"], "v": _agg(OPTION, NONE, "None", []), "sp": ht.get("sp")}] + swb["s"], "t": {"t": "goto", "bb": none_t, "sp": ht.get("sp")}, "cl": False}
        return True
    return False


def retarget(t, f):
    t = dict(t)
    if t.get("bb") is not None:
        t["bb"] = f(t["bb"])
    if t["t"] == "switch":
        t["vals"] = [[v, f(x)] for v, x in t["vals"]]
        if t.get("else") is not None:
            t["else"] = f(t["else"])
    if "bbs" in t:
        t["bbs"] = [f(x) for x in t["bbs"]]
    return t


# --------------------------------------------------------------------------------------------------------- inlining

class Frame:
    __slots__ = ("id", "path", "fn", "parent", "callnode", "clo", "depth", "envbox", "sub")

    def __init__(self, id, path, fn, parent, callnode, depth):
        self.id, self.path, self.fn, self.parent, self.callnode, self.depth = id, path, fn, parent, callnode, depth
        self.clo = {}  # param local -> (frame, closure operand)

    def stack(self):
        f, out = self, []
        while f:
            out.append(f.path)
            f = f.parent
        return out


class Node:
    __slots__ = ("id", "frame", "bb", "stmts", "term", "succ", "post", "mid")

    def __init__(self, id, frame, bb):
        self.id, self.frame, self.bb = id, frame, bb
        self.mid = False
        self.stmts = []   # ("raw", frame, stmt) | ("pass", dstframe, dstlocal, srcframe, operand) | ("ret", frame, place, calleeframe) | ("clear", frame)
        self.term = None  # (kind, frame, rawterm)
        self.succ = []    # (label, nodeid); label: None | ("sw", operand, val) | ("swelse", operand, [vals]) | ("assert",) | ("call",)


class Graph:
    """inlined control-flow graph of one entry function (no unwind edges)"""

    def __init__(self, prog, entry, inline=None, max_depth=14, max_nodes=60000, sub=()):
        self.prog, self.entry = prog, entry
        self.inline = inline or (lambda path, frame: True)
        self.max_depth, self.max_nodes = max_depth, max_nodes
        self.nodes, self.frames = [], []
        self.returns = []
        self.inlined = set()
        self.cut = set()
        f = self._frame(entry, None, None, 0, sub)
        self.root = f
        self.exit_kind = {}
        self.start = self._expand(f, None, None, None)
        self._finish()

    def _frame(self, path, parent, callnode, depth, sub=()):
        fr = Frame(len(self.frames), path, self.prog.specialised(path, sub) if sub else self.prog.prepared(path), parent, callnode, depth)
        fr.sub = sub
        self.frames.append(fr)
        self.inlined.add(path)
        return fr

    def _node(self, frame, bb):
        if len(self.nodes) > self.max_nodes:
            raise RuntimeError("inlined graph of %s exceeds %d nodes" % (self.entry, self.max_nodes))
        n = Node(len(self.nodes), frame, bb)
        self.nodes.append(n)
        return n

    def closure_def(self, frame, op):
        """definition path (or fn item k) of the closure value held by an operand of a frame, if it can be found"""
        if "k" in op:
            k = op["k"]
            if k.get("fn"):
                return ("fn", k)
            m = re.search(r"\{closure@([^}]*)\}", k.get("ty", ""))
            if m:
                d = self._clo_by_ty(k["ty"])
                return ("clo", d) if d else None
            return None
        pl = op.get("c") or op.get("m")
        l = pl[0]
        seen = set()
        while l not in seen:
            seen.add(l)
            if l in frame.clo:
                fr2, op2 = frame.clo[l]
                return self.closure_def(fr2, op2)
            nxt = None
            for b in frame.fn["blocks"]:
                for s in b["s"]:
                    if s.get("p") == [l]:
                        v = s["v"]
                        if v["r"] == "agg" and v.get("kind") == "closure":
                            return ("clo", v["def"])
                        if v["r"] == "use":
                            o = v["o"]
                            if "k" in o:
                                return self.closure_def(frame, o)
                            nxt = (o.get("c") or o.get("m"))[0]
                        elif v["r"] == "ref":
                            nxt = v["p"][0]
                        elif v["r"] == "cast":
                            o = v["o"]
                            if "k" in o:
                                return self.closure_def(frame, o)
                            nxt = (o.get("c") or o.get("m"))[0]
            if nxt is None:
                break
            l = nxt
        return None

    def _clo_by_ty(self, ty):
        m = re.search(r"\{closure@([^:}]*):(\d+):(\d+)", ty)
        if not m:
            return None
        for p, f in self.prog.fns.items():
            if f.get("parent"):
                t1 = f["locals"][1]["ty"] if len(f["locals"]) > 1 else ""
                if ("%s:%s:%s" % m.groups()) in t1:
                    return p
        return None

    def _expand(self, frame, ret_to, dest, dframe):
        """creates nodes for all blocks of frame; returns id of its first node. ret_to: node id continuing after return"""
        fn = frame.fn
        ids = {}
        reach, work = set(), [0]
        while work:
            b = work.pop()
            if b in reach:
                continue
            reach.add(b)
            work += [s for s in raw_succ(fn["blocks"][b]["t"])]
        for b in sorted(reach):
            ids[b] = self._node(frame, b)
        for b in sorted(reach):
            n = ids[b]
            blk = fn["blocks"][b]
            n.stmts = [("raw", frame, s) for s in blk["s"]]
            t = blk["t"]
            k = t["t"]
            n.term = (k, frame, t)
            if k == "goto":
                n.succ = [(None, ids[t["bb"]].id)]
            elif k == "switch":
                for v, tb in t["vals"]:
                    n.succ.append((("sw", v), ids[tb].id))
                if t.get("else") is not None:
                    n.succ.append((("swelse", tuple(v for v, _ in t["vals"])), ids[t["else"]].id))
            elif k == "return":
                if ret_to is None:
                    self.returns.append(n.id)
                else:
                    n.stmts.append(("ret", dframe, dest, frame))
                    n.stmts.append(("clear", frame))
                    n.term = ("goto", frame, t)
                    n.succ = [(None, ret_to)]
            elif k == "drop":
                n.succ = [(None, ids[t["bb"]].id)]
            elif k == "assert":
                n.succ = [(("assert",), ids[t["bb"]].id)]
            elif k == "call":
                self._call(n, frame, t, ids)
            elif k == "nd":
                n.succ = [(None, ids[x].id) for x in t["bbs"]]
            elif k == "other":
                bb = t.get("bb")
                if bb is not None:
                    n.succ = [(None, ids[bb].id)]
        return ids[0].id

    def _can_inline(self, path, frame):
        if path not in self.prog.fns or frame.depth + 1 > self.max_depth:
            return False
        if path in frame.stack():
            self.cut.add(path)
            return False
        return True

    def _sub(self, target, frame, f):
        """what a generic callee's type parameters stand for"""
        fn = self.prog.fns[target]
        if fn.get("parent"):
            fr = frame
            while fr is not None:
                if fr.path == fn["parent"]:
                    return fr.sub
                fr = fr.parent
            return ()
        k = f.get("k") or {}
        gen, ga = fn.get("gen"), k.get("ga")
        if not gen or not ga or k.get("res") or k.get("spec") or len(gen) != len(ga):
            return ()
        return tuple((a, b) for a, b in zip(gen, ga) if re.fullmatch(r"\w+", a) and a != b and re.fullmatch(r"[\w:<>,& \[\];]+", b) and not re.fullmatch(r"[A-Z]\w?", b))

    def _call(self, n, frame, t, ids):
        nxt = ids[t["bb"]].id if t.get("bb") is not None else None
        f = t["f"]
        target, spread, env = None, None, None
        args = t["args"]
        if "clo" in f:
            cd = self.closure_def(frame, f["clo"])
            if cd and cd[0] == "clo":
                target, env = cd[1], f["clo"]
            elif cd and cd[0] == "fn":
                k = cd[1]
                ctor = ctor_of(self.prog, k["fn"])
                if ctor:
                    n.stmts.append(("raw", frame, {"p": t["dest"], "v": dict(ctor, ops=args), "sp": t.get("sp")}))
                    n.term = ("goto", frame, t)
                    n.succ = [(None, nxt)] if nxt is not None else []
                    return
                t = dict(t, f={"k": k})
                n.term = ("call", frame, t)
                target = self.prog.inline_target(k)
        elif "k" in f:
            k = f["k"]
            p = k.get("fn") or ""
            if re.fullmatch(r"core::ops::function::(Fn::call|FnMut::call_mut|FnOnce::call_once)", p) and len(args) == 2:
                cd = self.closure_def(frame, args[0])
                if cd and cd[0] == "clo":
                    target, env = cd[1], args[0]
                    spread = args[1]
                elif cd and cd[0] == "fn":
                    c = self.prog.inline_target(cd[1])
                    if c:
                        target, spread = c, args[1]
            else:
                ctor = ctor_of(self.prog, p)
                if ctor and p not in self.prog.fns:
                    n.stmts.append(("raw", frame, {"p": t["dest"], "v": dict(ctor, ops=args), "sp": t.get("sp")}))
                    n.term = ("goto", frame, t)
                    n.succ = [(None, nxt)] if nxt is not None else []
                    return
                target = self.prog.inline_target(k)
        if target and self._can_inline(target, frame) and (self.inline(plain_path(target), frame) or self.prog.fns[target].get("parent")):
            cf = self._frame(target, frame, n.id, frame.depth + 1, self._sub(target, frame, f))
            fn = cf.fn
            np = fn["argc"]
            if env is not None:
                n.stmts.append(("passenv", cf, 1, frame, env, fn["locals"][1]["ty"]))
                if spread is not None:
                    for i in range(2, np + 1):
                        n.stmts.append(("passfield", cf, i, frame, spread, i - 2))
                        self._bindclo(cf, i, frame, spread, i - 2)
                else:
                    for i, a in enumerate(args):
                        n.stmts.append(("pass", cf, i + 2, frame, a))
            elif spread is not None:
                for i in range(1, np + 1):
                    n.stmts.append(("passfield", cf, i, frame, spread, i - 1))
            else:
                for i, a in enumerate(args):
                    n.stmts.append(("pass", cf, i + 1, frame, a))
                    if self.closure_def(frame, a):
                        cf.clo[i + 1] = (frame, a)
            if nxt is None:
                dead = self._node(frame, -1)
                dead.term = ("unreachable", frame, t)
                nxt = dead.id
            first = self._expand(cf, nxt, t["dest"], frame)
            n.term = ("icall", frame, t)
            n.succ = [(None, first)]
            return
        # opaque call; closures handed to it may run any number of times before it returns
        clos = []
        for a in args:
            cd = self.closure_def(frame, a)
            if cd and cd[0] == "clo" and self._can_inline(cd[1], frame):
                clos.append((cd[1], a))
        n.succ = [(("call",), nxt)] if nxt is not None else []
        if clos:
            # n: nd -> closure bodies -> n ; n -> callnode
            cn = self._node(frame, n.bb)
            cn.mid = True
            cn.term, cn.succ = n.term, n.succ
            n.term = ("nd", frame, {"t": "nd", "sp": t.get("sp")})
            n.succ = [(None, cn.id)]
            hub = self._node(frame, -1)
            hub.term = ("nd", frame, {"t": "nd", "sp": t.get("sp")})
            n.succ = [(None, hub.id)]
            hub.succ = [(None, cn.id)]
            for d, a in clos:
                pre = self._node(frame, -1)
                cf = self._frame(d, frame, n.id, frame.depth + 1, self._sub(d, frame, {}))
                pre.stmts.append(("passenv", cf, 1, frame, a, cf.fn["locals"][1]["ty"]))
                for i in range(2, cf.fn["argc"] + 1):
                    pre.stmts.append(("passunk", cf, i, cn.id, t))
                pre.term = ("icall", frame, dict(t, clo_of=True))
                first = self._expand(cf, hub.id, None, frame)
                pre.succ = [(None, first)]
                hub.succ.append((None, pre.id))

    def _bindclo(self, cf, i, frame, spread, idx):
        pass

    def _finish(self):
        self.preds = {n.id: [] for n in self.nodes}
        # reverse post order
        order, seen = [], set()
        stack = [(self.start, iter(self.nodes[self.start].succ))]
        seen.add(self.start)
        while stack:
            v, it = stack[-1]
            for lab, w in it:
                if w not in seen:
                    seen.add(w)
                    stack.append((w, iter(self.nodes[w].succ)))
                    break
            else:
                order.append(v)
                stack.pop()
        self.rpo = order[::-1]
        self.rpo_i = {v: i for i, v in enumerate(self.rpo)}
        self.reach = seen
        for v in self.rpo:
            for lab, w in self.nodes[v].succ:
                self.preds[w].append((v, lab))
        self.returns = [r for r in self.returns if r in seen]

    def span(self, nid):
        n = self.nodes[nid]
        t = n.term[2] if n.term else None
        sp = (t or {}).get("sp")
        return sp

    def forward(self, starts, stop=lambda n: False):
        seen, work = set(), list(starts)
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            if stop(v):
                continue
            work += [w for _, w in self.nodes[v].succ]
        return seen

    def dominators(self):
        if hasattr(self, "_idom"):
            return self._idom
        idom = {self.start: self.start}
        changed = True
        ri = self.rpo_i
        while changed:
            changed = False
            for v in self.rpo:
                if v == self.start:
                    continue
                new = None
                for p, _ in self.preds[v]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b2 = p, new
                            while a != b2:
                                while ri[a] > ri[b2]:
                                    a = idom[a]
                                while ri[b2] > ri[a]:
                                    b2 = idom[b2]
                            new = a
                if new is not None and idom.get(v) != new:
                    idom[v] = new
                    changed = True
        self._idom = idom
        return idom

    def dominates(self, a, b):
        idom = self.dominators()
        while True:
            if a == b:
                return True
            if b == self.start or b not in idom:
                return False
            b = idom[b]


DERIVED = re.compile(r" as core::(clone::Clone|fmt::\w+|cmp::\w+|hash::Hash|default::Default|error::Error)\b")


def plain_path(q):
    """the path by which inlining policies see a function: hand-written trait implementations count as functions of their type's module"""
    if q.startswith("<") and not DERIVED.search(q):
        return q[1:]
    return q


def raw_succ(t):
    k = t["t"]
    if k in ("goto", "drop", "assert"):
        return [t["bb"]]
    if k == "switch":
        return [x for _, x in t["vals"]] + ([t["else"]] if t.get("else") is not None else [])
    if k == "call":
        return [t["bb"]] if t.get("bb") is not None else []
    if k == "nd":
        return t["bbs"]
    if k == "other":
        return [t["bb"]] if t.get("bb") is not None else []
    return []


def ctor_of(prog, path):
    """tuple-struct / enum-variant constructors used as functions"""
    if path in ("core::result::Result::Ok", "core::result::Result::Err", "core::option::Option::Some"):
        adt, v = path.rsplit("::", 1)
        return {"r": "agg", "kind": "adt", "adt": adt, "variant": v, "vi": VN[adt].index(v), "fields": ["0"]}
    if path in prog.adts and len(prog.adts[path]["variants"]) == 1:
        va = prog.adts[path]["variants"][0]
        return {"r": "agg", "kind": "adt", "adt": path, "variant": va["name"], "vi": 0, "fields": [f[0] for f in va["fields"]]}
    adt, _, v = (path or "").rpartition("::")
    a = prog.adts.get(adt)
    if a:
        for i, va in enumerate(a["variants"]):
            if va["name"] == v:
                return {"r": "agg", "kind": "adt", "adt": adt, "variant": v, "vi": i, "fields": [f[0] for f in va["fields"]]}
    return None
