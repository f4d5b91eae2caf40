"""Path-sensitive, finite-state dataflow ("property simulation") over one function (or inlined graph): besides a client
state it carries only enum variants, booleans and small constants of live locals, so correlated branches (`?`, drop
flags, match on a result bound earlier) are followed exactly while everything else is left unknown."""
from mir import RESULT, OPTION, raw_succ, rv_operands, head

UNK = None


def V(adt, vi, kids=()):
    return ("v", adt, vi, tuple(kids))


def I(v):
    return ("i", v)


def liveness(fn):
    """block -> set of live-in locals; address-taken locals are always live"""
    if "_live" in fn:
        return fn["_live"]
    blocks = fn["blocks"]
    use, dfn = [], []
    taken = set()

    def ploc(p, u, d, write):
        if len(p) > 1 and p[1]:
            u(p[0])
            for e in p[1]:
                if e[0] == "i":
                    u(e[1])
        elif write:
            d(p[0])
        else:
            u(p[0])

    for b in blocks:
        us, ds = set(), set()

        def u(l):
            if l not in ds:
                us.add(l)

        def d(l):
            ds.add(l)

        def opd(o):
            if "k" not in o:
                ploc(o.get("c") or o.get("m"), u, d, False)

        for s in b["s"]:
            if "v" in s:
                v = s["v"]
                for o in rv_operands(v):
                    opd(o)
                if v["r"] in ("ref", "addr", "discr"):
                    ploc(v["p"], u, d, False)
                    if v["r"] != "discr":
                        taken.add(v["p"][0])
                ploc(s["p"], u, d, True)
        t = b["t"]
        if t["t"] == "call":
            for o in t["args"]:
                opd(o)
            if "clo" in t["f"]:
                opd(t["f"]["clo"])
            if "dyn" in t["f"]:
                opd(t["f"]["dyn"])
            if t.get("dest"):
                ploc(t["dest"], u, d, True)
        elif t["t"] == "switch":
            opd(t["o"])
        elif t["t"] == "assert":
            opd(t["cond"])
        elif t["t"] == "drop":
            ploc(t["p"], u, d, False)
        elif t["t"] == "return":
            u(0)
        use.append(us)
        dfn.append(ds)
    live = [set() for _ in blocks]
    ch = True
    while ch:
        ch = False
        for i in range(len(blocks) - 1, -1, -1):
            out = set()
            for s in raw_succ(blocks[i]["t"]):
                out |= live[s]
            n = use[i] | (out - dfn[i])
            if n != live[i]:
                live[i] = n
                ch = True
    for l in live:
        l |= taken
    fn["_live"] = live
    return live


class Esp:
    """subclass and override on_call/on_drop/on_return/on_stmt.  graph: mir.Graph"""
    max_states = 400000

    def __init__(self, graph):
        self.g = graph
        self.exceeded = False

    # ---- env helpers (env: dict key=(frameid, local) -> absval)
    def get_place(self, env, fr, p):
        key = (fr.id, p[0])
        v = env.get(key)
        for e in (p[1] if len(p) > 1 else ()):
            if v is None:
                return None
            k = e[0]
            if k == "d":
                if v[0] == "r":
                    v = self.get_path(env, v[1], v[2])
                elif v[0] == "&":
                    v = v[1]
                elif v[0] != "T":
                    return None
            elif v[0] == "T":
                pass
            elif k == "f":
                v = self.kid(v, e[1])
            elif k == "dc":
                if v[0] == "v" and v[2] != e[2]:
                    return None
            else:
                return None
        return v

    def get_path(self, env, key, path):
        v = env.get(key)
        for e in path:
            if v is None:
                return None
            v = self.kid(v, e)
        return v

    def kid(self, v, i):
        if v is None:
            return None
        if v[0] == "v":
            return v[3][i] if i < len(v[3]) else None
        if v[0] == "t":
            return v[1][i] if i < len(v[1]) else None
        if v[0] == "T":
            return v
        return None

    def place_key(self, env, fr, p):
        """(key, fieldpath) of a place made of fields / resolvable derefs; None otherwise"""
        key, path = (fr.id, p[0]), ()
        for e in (p[1] if len(p) > 1 else ()):
            if e[0] == "f":
                path += (e[1],)
            elif e[0] == "dc":
                pass
            elif e[0] == "d":
                v = self.get_path(env, key, path)
                if v is not None and v[0] == "r":
                    key, path = v[1], v[2]
                else:
                    return None
            else:
                return None
        return key, path

    def set_place(self, env, fr, p, val):
        kp = self.place_key(env, fr, p)
        if kp is None:
            return
        key, path = kp
        if not path:
            if val is None:
                env.pop(key, None)
            else:
                env[key] = val
            return
        cur = env.get(key)
        nv = self.set_path(cur, path, val)
        if nv is None:
            env.pop(key, None)
        else:
            env[key] = nv

    def set_path(self, cur, path, val):
        if not path:
            return val
        i = path[0]
        if cur is None:
            kids = [None] * (i + 1)
            kids[i] = self.set_path(None, path[1:], val)
            return ("t", tuple(kids)) if kids[i] is not None else None
        if cur[0] == "v":
            kids = list(cur[3])
            while len(kids) <= i:
                kids.append(None)
            kids[i] = self.set_path(kids[i], path[1:], val)
            return ("v", cur[1], cur[2], tuple(kids))
        if cur[0] == "t":
            kids = list(cur[1])
            while len(kids) <= i:
                kids.append(None)
            kids[i] = self.set_path(kids[i], path[1:], val)
            return ("t", tuple(kids))
        return None

    def operand(self, env, fr, o):
        if "k" in o:
            k = o["k"]
            if "v" in k and isinstance(k["v"], (int, bool)):
                return ("i", int(k["v"]))
            if "static" in k:
                return ("s", k["static"])
            return self.const(k)
        return self.get_place(env, fr, o.get("c") or o.get("m"))

    def const(self, k):
        return None

    def rvalue(self, env, fr, v):
        r = v["r"]
        if r == "use":
            return self.operand(env, fr, v["o"])
        if r == "agg":
            kids = tuple(self.operand(env, fr, o) for o in v["ops"])
            if v["kind"] == "adt":
                return ("v", v["adt"], v["vi"], kids)
            if any(k is not None for k in kids):
                return ("t", kids)
            return None
        if r == "discr":
            x = self.get_place(env, fr, v["p"])
            if x is not None and x[0] == "v":
                a = self.g.prog.adts.get(x[1])
                return ("i", a["variants"][x[2]]["discr"] if a else x[2])
            return None
        if r == "ref" or r == "addr":
            p_ = v["p"]
            if len(p_) > 1 and p_[1] and p_[1][0][0] == "d":     # reborrow of an opaque pointer
                x = env.get((fr.id, p_[0]))
                if x is not None and x[0] not in ("r", "v", "t", "i"):
                    return x if len(p_[1]) == 1 else None
            kp = self.place_key(env, fr, v["p"])
            return ("r", kp[0], kp[1]) if kp else None
        if r == "un" and v["op"] == "Not":
            x = self.operand(env, fr, v["o"])
            if x is not None and x[0] == "i" and x[1] in (0, 1):
                return ("i", 1 - x[1])
            return None
        if r == "bin":
            a, b = self.operand(env, fr, v["a"]), self.operand(env, fr, v["b"])
            if a and b and a[0] == "i" and b[0] == "i":
                f = {"Eq": a[1] == b[1], "Ne": a[1] != b[1], "Lt": a[1] < b[1], "Le": a[1] <= b[1], "Gt": a[1] > b[1], "Ge": a[1] >= b[1]}
                if v["op"] in f:
                    return ("i", int(f[v["op"]]))
                if v["op"] == "BitAnd":
                    return ("i", a[1] & b[1])
                if v["op"] == "BitOr":
                    return ("i", a[1] | b[1])
            return None
        if r == "cast":
            x = self.operand(env, fr, v["o"])
            if x is not None and (x[0] == "i" and ("Int" in v["kind"] or "Pointer" in v["kind"]) or "Coercion" in v["kind"] or v["kind"] == "PtrToPtr"):
                return x
            return None
        return None

    # ---- hooks
    def on_call(self, env, ust, node, fr, t, args):
        """-> list of (dest absval, new ust)"""
        return [(None, ust)]

    def on_drop(self, env, ust, node, fr, t):
        return ust

    def on_return(self, env, ust, node, retval):
        pass

    def on_stmt(self, env, ust, node, fr, s, val):
        return ust

    def on_end(self, env, ust, node, kind):
        pass

    def on_edge(self, env, ust, node, lab, w):
        return ust

    def on_enter(self, env, ust, node):
        return ust

    def on_move(self, ust, u, w):
        """any step from node u to node w (called last)"""
        return ust

    # ---- engine
    def run(self, starts):
        """starts: list of (node, env dict, ust, mode); mode 'in' or 'after' (the call terminator of node already done)"""
        seen = set()
        work = []
        self.parent = {}

        def push(nid, env, ust, frm):
            if frm is not None:
                ust = self.on_move(ust, frm[0], nid)
            n = self.g.nodes[nid]
            if n.bb is not None and n.bb >= 0 and not n.mid:
                live = liveness(n.frame.fn)[n.bb]
                fid = n.frame.id
                env = {k: v for k, v in env.items() if k[0] != fid or k[1] in live}
            key = (nid, frozenset(env.items()), ust)
            if key in seen:
                return
            seen.add(key)
            self.parent[key] = frm
            work.append((nid, env, ust, key))

        for s in starts:
            nid, env, ust, mode = s
            if mode == "in":
                push(nid, env, ust, None)
            else:
                for lab, w in self.g.nodes[nid].succ:
                    push(w, dict(env), ust, None)
        steps = 0
        while work:
            steps += 1
            if steps > self.max_states:
                self.exceeded = True
                break
            nid, env, ust, key = work.pop()
            self.cur = key
            env = dict(env)
            n = self.g.nodes[nid]
            ust = self.on_enter(env, ust, n)
            if ust == "STOP":
                continue
            for s in n.stmts:
                ust = self.stmt(env, ust, n, s)
            kind, fr, t = n.term if n.term else ("none", n.frame, {})
            if kind == "call":
                args = [self.operand(env, fr, a) for a in t["args"]]
                outs = self.on_call(env, ust, n, fr, t, args)
                for o in outs:
                    val, u2 = o[0], o[1]
                    e2 = dict(o[2]) if len(o) > 2 else dict(env)
                    if u2 == "STOP":
                        continue
                    if t.get("dest") is not None:
                        self.set_place(e2, fr, t["dest"], val)
                    if not n.succ:
                        self.on_end(e2, u2, n, "diverge")
                    for lab, w in n.succ:
                        push(w, e2, u2, key)
                continue
            if kind == "drop":
                ust = self.on_drop(env, ust, n, fr, t)
            if kind == "return" and nid in self.g.returns:
                self.on_return(env, ust, n, env.get((self.g.root.id, 0)))
                continue
            if kind == "switch":
                v = self.operand(env, fr, t["o"])
                taken = None
                if v is not None and v[0] == "i":
                    taken = v[1]
                opl = (t["o"].get("c") or t["o"].get("m")) if "k" not in t["o"] else None
                for lab, w in n.succ:
                    e2, u2 = env, ust
                    if taken is not None:
                        if lab[0] == "sw" and lab[1] != taken:
                            continue
                        if lab[0] == "swelse" and taken in lab[1]:
                            continue
                    else:
                        e2 = dict(env)
                        self.refine(e2, n, fr, t, opl, lab)
                    u2 = self.on_edge(e2, ust, n, lab, w)
                    if u2 == "STOP":
                        continue
                    push(w, e2, u2, key)
                continue
            if not n.succ:
                self.on_end(env, ust, n, kind)
                continue
            for lab, w in n.succ:
                push(w, env, ust, key)
        self.nstates = len(seen)

    def refine(self, env, n, fr, t, opl, lab):
        """learn the switched value on the chosen edge: the switch operand, and (if it is the discriminant of a place
        computed in the same node) the variant of that place"""
        if opl is None or len(opl) > 1:
            return
        val = None
        if lab[0] == "sw":
            val = lab[1]
        elif t.get("ty") == "bool":
            val = 1
        src = None
        for s in reversed(n.stmts):
            if s[0] == "raw" and "v" in s[2] and s[2]["p"] == [opl[0]]:
                if s[2]["v"]["r"] == "discr":
                    src = s[2]["v"]
                break
        if src is not None:
            adt = head(src.get("ty") or "")
            pr = self.g.prog.adts.get(adt)
            discrs = [v["discr"] for v in pr["variants"]] if pr else [0, 1]
            if val is None:
                rest = [d for d in discrs if d not in lab[1]]
                if len(rest) == 1:
                    val = rest[0]
            if val is not None and val in discrs:
                vi = discrs.index(val)
                cur = self.get_place(env, fr, src["p"])
                if cur is None or cur[0] not in ("v",):
                    self.set_place(env, fr, src["p"], ("v", adt, vi, self.variant_kids(cur, adt, vi)))
        if val is not None:
            env[(fr.id, opl[0])] = ("i", val)

    def variant_kids(self, cur, adt, vi):
        """what is known of the fields of a value just found to be of variant vi"""
        return ()

    def stmt(self, env, ust, n, s):
        k = s[0]
        if k == "raw":
            _, fr, x = s
            if "v" in x:
                val = self.rvalue(env, fr, x["v"])
                ust = self.on_stmt(env, ust, n, fr, x, val)
                self.set_place(env, fr, x["p"], val)
            elif "dead" in x:
                env.pop((fr.id, x["dead"]), None)
            elif "setd" in x:
                self.set_place(env, fr, x["setd"], None)
        elif k == "pass":
            _, cf, l, fr, o = s
            v = self.operand(env, fr, o)
            if v is not None:
                env[(cf.id, l)] = v
        elif k == "passfield":
            _, cf, l, fr, o, i = s
            v = self.kid(self.operand(env, fr, o), i)
            if v is not None:
                env[(cf.id, l)] = v
        elif k == "passenv":
            _, cf, l, fr, o, ty = s
            v = self.operand(env, fr, o)
            if ty.startswith("&") and "k" not in o:
                pl = o.get("c") or o.get("m")
                oty = fr.fn["locals"][pl[0]]["ty"] if len(pl) == 1 else pl[2]
                if not oty.startswith("&"):
                    kp = self.place_key(env, fr, pl)
                    v = ("r", kp[0], kp[1]) if kp else None
            if v is not None:
                env[(cf.id, l)] = v
        elif k == "ret":
            _, fr, place, cf = s
            if place is not None:
                self.set_place(env, fr, place, env.get((cf.id, 0)))
        elif k == "clear":
            fid = s[1].id
            for kk in [kk for kk in env if kk[0] == fid]:
                del env[kk]
        return ust

    def trail(self, key, limit=60):
        out = []
        while key is not None:
            n = self.g.nodes[key[0]]
            sp = self.g.span(n.id)
            if sp:
                loc = "%s:%s" % (sp[0], sp[1])
                if not out or out[-1] != loc:
                    out.append(loc)
            key = self.parent.get(key)
        out = out[::-1]
        return out if len(out) <= limit else out[:limit // 2] + ["..."] + out[-limit // 2:]
