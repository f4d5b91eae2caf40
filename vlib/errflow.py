"""Failure-flow analysis.  For every call that can fail (returns Result, or Option/other where configured), assume it
failed and follow every path of the calling function: the failure is `propagated` if every path that returns does so
with the function's own failure value, `swallowed` if some path returns success, `panics` if it ends in a panic."""
import re
from mir import Graph, RESULT, OPTION, ERR, OK, head
from esp import Esp, V

FMT = re.compile(r"core::fmt::|<.* as core::fmt::|alloc::fmt::|std::io::stdio::_e?print|core::fmt")


def result_ty(ty):
    return head(ty) == RESULT


class _Walk(Esp):
    max_states = 60000

    pos = False

    def __init__(self, g, fail_of, callee_ok=None):
        super().__init__(g)
        self.out = []       # (kind, key)
        self.fail_of = fail_of
        self.extra = callee_ok

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("fn") or ""
        # passing the failed Result by value into something else: conversions keep the variant
        if p in ("core::convert::Into::into", "core::convert::From::from", "core::hint::must_use") and args:
            return [(args[0], ust)]
        if p.startswith("anyhow::") and args and args[0] is not None and args[0][0] == "v" and args[0][1] == RESULT:
            return [(("v", RESULT, args[0][2], ()), ust)]   # context/with_context
        if re.search(r"::(context|with_context)$", p) and args and args[0] is not None and args[0][0] == "v":
            return [(("v", RESULT, ERR if (args[0][1] == RESULT and args[0][2] == ERR) or (args[0][1] == OPTION and args[0][2] == 0) else OK, ()), ust)]
        if p == "core::clone::Clone::clone" and args and args[0] is not None and args[0][0] == "r":
            return [(self.get_path(env, args[0][1], args[0][2]), ust)]
        if self.extra:
            r = self.extra(self, env, ust, node, fr, t, args, k, p)
            if r is not None:
                return r
        return [(None, ust)]

    def on_return(self, env, ust, node, rv):
        self.out.append((self.fail_of(rv, env, ust), self.cur))

    def on_end(self, env, ust, node, kind):
        if kind in ("panic", "diverge", "unreachable"):
            self.out.append(("panic", self.cur))


POS = ("p",)         # an unsigned number known to be at least 1
FILLED = ("V", 1)    # a collection known not to be empty
GROW = re.compile(r"(Vec|VecDeque|BTreeMap|HashMap|BTreeSet|HashSet)(::)?<.*>::(push|push_back|push_front|insert)$")
EMPTY = re.compile(r"::is_empty$")
LEN = re.compile(r"(Vec|VecDeque|BTreeMap|HashMap|BTreeSet|HashSet)(::)?<.*>::len$|slice::<impl \[.*\]>::len$")
VIEW = re.compile(r"Deref(Mut)?>?::deref(_mut)?$|::(as_slice|as_mut_slice|as_ref|as_mut|borrow)$")
SHRINK = re.compile(r"::(clear|pop|pop_front|pop_back|truncate|drain|retain|remove|swap_remove|split_off|take|replace|swap|append)$")


def marks(v):
    """only the recorded failures in a value"""
    if v in (POS, FILLED):
        return v
    if v is not None and v[0] in ("v", "t"):
        kids = tuple(marks(x) for x in (v[3] if v[0] == "v" else v[1]))
        if any(x is not None for x in kids):
            return ("t", kids)
    return None


ARRITER = re.compile(r"slice::<impl \[.*\]>::iter$|\[.*; .*\] as core::iter::traits::collect::IntoIterator>::into_iter$|<I as core::iter::traits::collect::IntoIterator>::into_iter$|Iterator>?::(copied|cloned)$|array::.*::into_iter$")
ANYALL = re.compile(r"Iterator>?::(any|all)$")


class _Eval(Esp):
    max_states = 500

    def __init__(self, g):
        super().__init__(g)
        self.vals = set()

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        if p.endswith("Not::not") or p.endswith("Not>::not"):
            x = args[0] if args else None
            while x is not None and x[0] == "&":
                x = x[1]
            if x is not None and x[0] == "r":
                x = self.get_path(env, x[1], x[2])
            if x is not None and x[0] == "i" and x[1] in (0, 1):
                return [(("i", 1 - x[1]), ust)]
        return [(None, ust)]

    def on_return(self, env, ust, node, rv):
        self.vals.add(rv)


class CountWalk(_Walk):
    max_states = 1500000

    """also knows counters that were incremented and collections that received an element since the failure"""

    def rvalue(self, env, fr, v):
        if v["r"] == "bin":
            a, b = self.operand(env, fr, v["a"]), self.operand(env, fr, v["b"])
            op = v["op"]
            if op.startswith("Add") and ((b is not None and b[0] == "i" and b[1] >= 1) or a == POS or b == POS or (a is not None and a[0] == "i" and a[1] >= 1)) \
                    and not (a is not None and b is not None and a[0] == "i" and b[0] == "i"):
                return ("t", (POS, None)) if "Overflow" in op else POS
            if op == "BitOr" and (a == ("i", 1) or b == ("i", 1)):
                return ("i", 1) if all(x is None or x in (("i", 0), ("i", 1)) for x in (a, b)) else None
            if (a == POS) != (b == POS):
                k = b if a == POS else a
                if k is not None and k[0] == "i":
                    if b == POS:      # k op p  ==  p flip(op) k
                        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
                    n = k[1]
                    r = {"Eq": 0 if n <= 0 else None, "Ne": 1 if n <= 0 else None, "Gt": 1 if n <= 0 else None, "Ge": 1 if n <= 1 else None,
                         "Lt": 0 if n <= 1 else None, "Le": 0 if n <= 0 else None}.get(op)
                    return ("i", r) if r is not None else None
        if v["r"] == "cast":
            x = self.operand(env, fr, v["o"])
            if x == POS and "IntToInt" in v["kind"]:
                return None
        return super().rvalue(env, fr, v)

    def refine(self, env, n, fr, t, opl, lab):
        self.pos = self.operand(env, fr, t["o"]) == POS
        super().refine(env, n, fr, t, opl, lab)

    def on_edge(self, env, ust, node, lab, w):
        pos, self.pos = self.pos, False
        if lab[0] == "sw" and lab[1] == 0 and pos:
            return "STOP"
        return super().on_edge(env, ust, node, lab, w)

    def target(self, env, a):
        """place a reference finally points to"""
        last = None
        while a is not None and a[0] == "r":
            last = a
            a = self.get_path(env, a[1], a[2])
        return last, a

    def elements(self, env, a):
        """element values of an array behind an operand, or None"""
        if a is not None and a[0] == "it":
            return a[1]
        r, v = self.target(env, a)
        if v is not None and v[0] == "it":
            return v[1]
        return v[1] if v is not None and v[0] == "t" else None

    def apply(self, fr, op, elem):
        """truth values a closure can return for an element (given by reference or by value)"""
        d = self.g.closure_def(fr, op)
        if d is None or d[0] != "clo" or d[1] not in self.g.prog.fns:
            return {None}
        g = Graph(self.g.prog, d[1], inline=lambda p, f: False)
        w = _Eval(g)
        env = {}
        ty = g.root.fn["locals"][2]["ty"]
        for _ in range(len(ty) - len(ty.lstrip("&"))):
            elem = ("&", elem)
        env[(g.root.id, 2)] = elem
        w.run([(g.start, env, None, "in")])
        return {None} if w.exceeded else w.vals

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        if (p.endswith("__private::not") or p == "core::ops::bit::Not::not" or p.endswith("bool as core::ops::bit::Not>::not")) and args and args[0] is not None and args[0][0] == "i" and args[0][1] in (0, 1):
            return [(("i", 1 - args[0][1]), ust)]
        if ARRITER.search(p) and args:
            el = self.elements(env, args[0])
            return [(("it", el) if el is not None else None, ust)]
        if ANYALL.search(p) and len(args) == 2:
            el = self.elements(env, args[0])
            if el is not None:
                hit = 1 if p.endswith("any") else 0
                if any(x is not None and self.apply(fr, t["args"][1], x) == {("i", hit)} for x in el):
                    return [(("i", hit), ust)]
        if p.endswith("::contains") and len(args) == 2:
            el = self.elements(env, args[0])
            x = self.target(env, args[1])[1]
            if el is not None and x is not None and x[0] == "i" and x in el:
                return [(("i", 1), ust)]
        if args and args[0] is not None:
            r, v = self.target(env, args[0])
            if GROW.search(p) and r is not None:
                if v == FILLED:
                    return [(None, ust)]
                # from here on the recorded failure is what decides: forget the rest (fewer facts, more paths)
                e2 = {k_: m for k_, m in ((k_, marks(x)) for k_, x in env.items()) if m is not None}
                nv = self.set_path(e2.get(r[1]), r[2], FILLED)
                if nv is not None:
                    e2[r[1]] = nv
                return [(None, ust, e2)]
            if v == FILLED:
                if EMPTY.search(p):
                    return [(("i", 0), ust)]
                if LEN.search(p):
                    return [(POS, ust)]
                if VIEW.search(p):
                    return [(args[0], ust)]
                if SHRINK.search(p) and r is not None:
                    e2 = dict(env)
                    nv = self.set_path(e2.get(r[1]), r[2], None)
                    if nv is None:
                        e2.pop(r[1], None)
                    else:
                        e2[r[1]] = nv
                    return [(None, ust, e2)]
            if p == "std::process::exit" and args[0] is not None:
                self.out.append(("ok" if args[0] == ("i", 0) else "fail", self.cur))
                return [(None, "STOP")]
        if p in ("std::process::exit", "std::process::abort") and not (args and args[0]):
            self.out.append(("unknown" if p.endswith("exit") else "fail", self.cur))
            return [(None, "STOP")]
        return super().on_call(env, ust, node, fr, t, args)


class ErrFlow:
    walk = _Walk

    def __init__(self, prog, extra=None, ret_fail=None):
        """ret_fail: fn path -> function(retval absval, ust) -> 'fail' | 'ok' for functions not returning Result"""
        self.prog = prog
        self.graphs = {}
        self.memo = {}
        self.extra = extra
        self.ret_fail = ret_fail or {}

    def graph(self, path):
        if path not in self.graphs:
            self.graphs[path] = Graph(self.prog, path, inline=lambda p, f: False)
        return self.graphs[path]

    def fail_fn(self, path):
        if path in self.ret_fail:
            return self.ret_fail[path]
        ty = self.prog.fns[path]["locals"][0]["ty"]

        def f(rv, env, ust):
            if rv is not None and rv[0] == "v" and rv[1] == RESULT:
                return "fail" if rv[2] == ERR else "ok"
            return "ok"
        return f

    def returns_result(self, path):
        return result_ty(self.prog.fns[path]["locals"][0]["ty"])

    def sites(self, path):
        """fallible calls of a function: (node, callee path, k, term)"""
        g = self.graph(path)
        out = []
        for nid in g.rpo:
            n = g.nodes[nid]
            if not n.term or n.term[0] != "call":
                continue
            t = n.term[2]
            if t.get("dest") is None:
                continue
            d = t["dest"]
            fr = n.term[1]
            ty = fr.fn["locals"][d[0]]["ty"] if len(d) == 1 or not d[1] else d[2]
            if not result_ty(ty):
                continue
            k = t["f"].get("k") or {}
            p = k.get("res") or k.get("fn") or "CLOSURE"
            if FMT.match(p) or "fmt::Error" in ty:
                continue
            out.append((nid, p, k, t))
        return out

    def fate(self, path, nid, payload=None, persistent=None):
        """set of ('fail'|'ok'|'panic', trail) when the call at nid fails.  payload: variant of the error value;
        persistent: predicate on callee paths whose calls also fail from then on"""
        key = (path, nid, payload, id(persistent) if persistent else None)
        if key in self.memo:
            return self.memo[key]
        g = self.graph(path)
        n = g.nodes[nid]
        t, fr = n.term[2], n.term[1]
        extra = self.extra
        if persistent:
            def extra(w_, env_, ust, node, fr_, t_, args, k_, p_):
                if persistent(k_.get("res") or p_):
                    return [(("v", RESULT, ERR, ()), ust)]
                return self.extra(w_, env_, ust, node, fr_, t_, args, k_, p_) if self.extra else None
        w = self.walk(g, self.fail_fn(path), extra)
        env = {}
        w.set_place(env, fr, t["dest"], ("v", RESULT, ERR, (payload,) if payload else ()))
        w.run([(nid, env, None, "after")])
        res = {}
        for kind, st in w.out:
            if kind not in res:
                res[kind] = w.trail(st)
        if w.exceeded:
            res["unknown"] = []
        self.memo[key] = res
        return res
