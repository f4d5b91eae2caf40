"""Shared: the exported C functions and their inlined graphs"""
import re
from mir import Graph, RESULT, OK, ERR
from esp import Esp


def exported(prog):
    return sorted(p for p, f in prog.fns.items() if f["crate"] == "storm" and "{closure" not in p and (f.get("symbol") or f.get("abi") == "C"))


def ffi_graph(prog, path):
    return Graph(prog, path, inline=lambda p, fr: p.startswith("storm::"))


LOCK = re.compile(r"(Mutex|RwLock)(::)?<.*>::(lock|read|write)$|ReentrantLock.*::lock$")


class LockEsp(Esp):
    """client state: (frozenset of held statics, extra)"""
    max_states = 300000

    def __init__(self, g):
        super().__init__(g)
        self.acq = []      # (static, held before, node, cur)
        self.indirect = []
        self.unlocks = 0

    def extra0(self):
        return None

    def rel(self, ust, v):
        if v is None:
            return ust
        if v[0] == "g":
            self.unlocks += 1
            return (ust[0] - {v[1]}, ust[1])
        if v[0] == "v" or v[0] == "t":
            for k in (v[3] if v[0] == "v" else v[1]):
                ust = self.rel(ust, k)
        return ust

    def on_drop(self, env, ust, node, fr, t):
        v = self.get_place(env, fr, t["p"])
        return self.rel(ust, v)

    def on_call(self, env, ust, node, fr, t, args):
        f = t["f"]
        k = f.get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        if not k or "dyn" in f:
            self.indirect.append((ust[0], node, self.cur))
            return self.other(env, ust, node, fr, t, args, "INDIRECT", {})
        if LOCK.search(p):
            a = args[0] if args else None
            while a is not None and a[0] == "r":
                a = self.get_path(env, a[1], a[2])
            name = a[1] if a is not None and a[0] == "s" else "?"
            self.acq.append((name, ust[0], node, self.cur))
            return [(("v", RESULT, OK, (("g", name),)), (ust[0] | {name}, self.locked(ust[1], name)))]
        if p in ("core::mem::drop", "core::mem::forget"):
            u = self.rel(ust, args[0]) if p.endswith("drop") else ust
            return [(None, u)]
        if re.search(r"Deref(Mut)?>?::deref(_mut)?$|LazyLock.*::force$|OnceLock.*::get_or_init$|AsRef.*as_ref$|Borrow.*::borrow$", p) and args:
            a = args[0]
            b = a
            while b is not None and b[0] == "r":
                b = self.get_path(env, b[1], b[2])
            if b is not None and b[0] in ("s", "g", "d"):
                return [(("d", b[1]) if b[0] == "g" else b, ust)]
        return self.other(env, ust, node, fr, t, args, p, k)

    def locked(self, extra, name):
        return extra

    def other(self, env, ust, node, fr, t, args, p, k):
        return [(None, ust)]
