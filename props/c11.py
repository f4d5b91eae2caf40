import re
from common import *
from ffi import *

RULE = ("Lockset analysis, path-sensitive over every exported C function with its callees in the FFI crate inlined: guards of the process-wide "
        "mutexes are followed through moves, scopes and explicit drops.  A lock is never requested while the same lock is held (self-deadlock), the "
        "union over all functions of `requested while holding` edges has no cycle (no two threads can deadlock), and no caller-supplied callback "
        "runs while any lock is held (a callback that calls back into the API cannot deadlock).")


def run(ctx):
    prog = ctx.prog
    edges = {}
    n = 0
    for p in exported(prog):
        g = ffi_graph(prog, p)
        e = LockEsp(g)
        e.run([(g.rpo[0], {}, (frozenset(), None), "in")])
        ctx.functions |= {fr.path for fr in g.frames}
        n += 1
        if e.exceeded:
            ctx.violation("undecided:" + p, "too many states to decide the locks held in %s" % p, prog.fns[p]["span"])
        seen = set()
        for (name, held, node, cur) in e.acq:
            key = (name, held, node.id)
            if key in seen:
                continue
            seen.add(key)
            ctx.count("lock_acquisition_states")
            if name == "?":
                ctx.violation("unknown-lock:" + p, "%s locks a mutex that is not one of the process-wide ones" % p, g.span(node.id))
            if name in held:
                ctx.violation("relock:%s:%s" % (p, name), "%s locks %s while already holding it: the calling thread deadlocks" % (p, name), g.span(node.id), e.trail(cur))
            for h in held:
                edges.setdefault((h, name), (p, g.span(node.id)))
        for (held, node, cur) in e.indirect:
            ctx.count("callback_states")
            if held:
                ctx.violation("callback:%s" % p, "%s runs the caller's callback while holding %s; a callback that uses the API deadlocks" % (p, sorted(held)),
                              g.span(node.id), e.trail(cur))
    ctx.count("exported_functions", n)
    ctx.count("lock_order_edges", len(edges))
    adj = {}
    for (a, b) in edges:
        if a != b:
            adj.setdefault(a, set()).add(b)

    def cyc(a, path):
        for b in adj.get(a, ()):
            if b in path:
                return path[path.index(b):] + [b]
            r = cyc(b, path + [b])
            if r:
                return r
        return None
    for a in sorted(adj):
        c = cyc(a, [a])
        if c:
            ctx.violation("cycle:" + "<".join(sorted(set(c))), "locks are requested in a cycle: %s" % " -> ".join(c),
                          edges[(c[0], c[1])][1], ["%s holds %s, requests %s at %s" % (edges[(x, y)][0], x, y, edges[(x, y)][1]) for x, y in zip(c, c[1:])])
            break
    for (a, b), (p, sp) in sorted(edges.items()):
        ctx.sample("%s while holding %s in %s" % (b, a, p))
    ctx.floor("lock_acquisition_states", 6)
    ctx.floor("exported_functions", 15)
