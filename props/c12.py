import re
from common import *
from ffi import *
from mir import OPTION
from terms import Interp, show, subterms, mk, add, is_c, lin_parts

RULE = ("Typestate and value-flow analysis of the handle tables of the C API (FFI-crate callees inlined).  (1) Handle ids: every key inserted into a table is the "
        "counter's value read under its lock, the counter is advanced under that same lock before the insertion, is never stored otherwise, and starts above 0.  (2) The id goes to the "
        "caller unchanged, and every lookup or removal uses the id of a handle argument.  (3) A function taking a handle reports success only on paths where a lookup of it succeeded.  (4) A file "
        "handle is inserted only while the archive table is locked and the archive was found in it under that same lock; closing an archive removes it and then, "
        "on every such path, purges exactly the file handles recorded for it.")

MAPCALL = re.compile(r"(?:HashMap|BTreeMap)::<.*>::(\w+)$")
FIND = {"get", "get_mut", "contains_key", "remove", "get_key_value", "entry", "remove_entry"}


def tables(prog):
    arch, files, counters = set(), set(), set()
    for p, s in prog.statics.items():
        if s["crate"] != "storm" or s.get("tls"):
            continue
        m = re.search(r"(?:HashMap|BTreeMap)<usize, ([\w:]+)>", s["ty"])
        if m:
            (arch if holds_archive(prog, m.group(1)) else files).add(p)
        elif re.search(r"Mutex<(usize|u64|u32)>|Atomic(Usize|U64|U32|<(usize|u64|u32)>)", s["ty"]):
            counters.add(p)
    return arch, files, counters


def holds_archive(prog, ty):
    a = prog.adts.get(ty)
    if not a:
        return False
    for v in a["variants"]:
        for f in v["fields"]:
            if re.search(r"mopaq::archive::Archive\b", f[1]):
                return True
    return False


def static_of(t, I=None):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        for x in subterms(y):
            if x.op == "static":
                return x.a[0]
            if x.op == "phi" and I is not None and x not in seen:       # a table changed in a loop
                seen.add(x)
                st += list(I.phi_in.get(x, {}).values())
    return None


def calls(t, name):
    """arguments of a pure/opaque call term of that name"""
    if t.op in ("pure", "call") and str(t.a[0]).rsplit("::", 1)[-1] == name:
        return t.a[-1]
    return None


def purge_loops(ctx, prog, I, g, p, arch, files, removed):
    """`for id in <ids of the files of the archive> { files.remove(&id) }`: {next node: (owner field, remove nodes)}"""
    out = {}
    rem = {}
    for s in I.sites():
        m = MAPCALL.search(s.fn)
        if m and m.group(1) == "remove" and static_of(s.vals[0], I) in files:
            k = deref(s.vals[1])
            nx = next((x for x in subterms(k) if x.op == "next"), None)
            if nx is not None and k.op == "f" and k.a[0].op == "dc" and k.a[0].a[0] is nx:
                rem.setdefault(nx, set()).add(s.node)
    for nx, nodes in rem.items():
        c = nx.a[1]
        while c.op in ("iter", "&", "*"):
            c = c.a[0]
        co = calls(c, "collect")
        mp = calls(co[0], "map") if co else None
        fl = calls(mp[0], "filter") if mp else None
        if not fl or static_of(fl[0], I) not in files:
            continue
        idc = mp[1]
        if idc.op != "agg" or idc.a[0] != "closure":
            continue
        r = list(Interp(ffi_graph(prog, idc.a[1])).retval.values())
        k = deref(r[0]) if len(r) == 1 else None
        if k is None or not (k.op == "f" and k.a[2][1] == 0 and deref(k.a[0]).op == "param" and deref(k.a[0]).a[0] == 2):
            continue                                   # not the key of the entry
        site = next((s for s in I.sites() if s.fn.endswith("Iterator::filter") and len(s.vals) == 2 and s.vals[1] is fl[1]), None)
        fld = keep_rule(ctx, prog, I, site, p, removed, False) if site is not None else None
        if fld is None:
            continue
        body = [w for lab, w in g.nodes[nx.a[0]].succ]
        # every id the loop gets is removed
        some = [w for n in g.forward(body, stop=lambda i: g.nodes[i].term and g.nodes[i].term[0] == "switch") if g.nodes[n].term and g.nodes[n].term[0] == "switch"
                for lab, w in g.nodes[n].succ if lab == ("sw", 1) or lab[0] == "swelse" and 0 in lab[1]]
        if some and nx.a[0] not in g.forward(some, stop=lambda i: i in nodes):
            out[nx.a[0]] = (fld, nodes)
    return out


class E(LockEsp):
    """extra: frozenset of marks: found (a handle lookup succeeded), present (archive found under the current hold), removed, purged"""

    def __init__(self, g, arch, files, loops=()):
        super().__init__(g)
        self.ploops = loops
        self.arch, self.files = arch, files
        self.rets, self.inserts, self.purges = [], [], []

    def rel(self, ust, v):
        u = super().rel(ust, v)
        if (self.arch & ust[0]) - u[0]:
            u = (u[0], u[1] - {"present"})
        return u

    def other(self, env, ust, node, fr, t, args, p, k):
        if node.id in self.ploops:
            return [(("v", OPTION, 1, (None,)), ust), (("v", OPTION, 0, ()), (ust[0], ust[1] | {"purged"}) if "removed" in ust[1] else ust)]
        m = MAPCALL.search(p)
        if m and args and any(node.id in v[1] for v in dict(self.ploops).values()):
            return [(None, ust)]
        if m and args:
            a = args[0]
            while a is not None and a[0] == "r":
                a = self.get_path(env, a[1], a[2])
            name = a[1] if a is not None and a[0] in ("d", "g", "s") else None
            op = m.group(1)
            if name in self.arch | self.files:
                if op in FIND:
                    yes = {"found"}
                    if name in self.arch:
                        yes.add("removed" if op.startswith("remove") else "present")
                    on = (ust[0], ust[1] | yes)
                    if op == "contains_key":
                        return [(("i", 1), on), (("i", 0), ust)]
                    if op == "entry":
                        return [(None, ust)]
                    return [(("v", OPTION, 1, (None,)), on), (("v", OPTION, 0, ()), ust)]
                if op == "insert" and name in self.files:
                    self.inserts.append((node, ust, self.cur))
                if op in ("retain", "clear", "extract_if") and name in self.files:
                    self.purges.append((node, ust, self.cur))
                    if "removed" in ust[1]:
                        return [(None, (ust[0], ust[1] | {"purged"}))]
            elif name is None and op in FIND | {"insert", "retain"}:
                self.unknown = node
        if re.search(r"Option::<.*>::(is_some|is_none)$", p) and args:
            a = args[0]
            while a is not None and a[0] == "r":
                a = self.get_path(env, a[1], a[2])
            if a is not None and a[0] == "v":
                return [(("i", int((a[2] == 1) == p.endswith("is_some"))), ust)]
        return super().other(env, ust, node, fr, t, args, p, k)

    unknown = None

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def uncast(t):
    """casts that keep the whole id"""
    while t.op == "cast" and not re.match(r"^[ui](8|16|32)$|^bool$|^char$", str(t.a[0])):
        t = t.a[1]
    return t


def run(ctx):
    prog = ctx.prog
    arch, files, counters = tables(prog)
    if len(arch) != 1 or not files or not counters:
        ctx.violation("tables", "the handle tables are not recognised: archive tables %s, file tables %s, counters %s" % (sorted(arch), sorted(files), sorted(counters)))
        return
    ids = set()
    owner_fields = set()
    purge_fields = set()
    for p in exported(prog):
        fn = prog.fns[p]
        handles = [j for j in range(1, fn["argc"] + 1) if fn["locals"][j]["ty"] in ("*mut core::ffi::c_void", "*const core::ffi::c_void", "usize")]
        g = ffi_graph(prog, p)
        I = Interp(g)
        msites = [s for s in I.sites() if MAPCALL.search(s.fn) and static_of(s.vals[0], I) in arch | files]
        if not msites:
            continue
        ctx.functions |= {fr.path for fr in g.frames}
        ctx.count("functions_using_handles")
        loops = purge_loops(ctx, prog, I, g, p, arch, files, [deref(x.vals[1]) for x in msites if MAPCALL.search(x.fn).group(1).startswith("remove") and static_of(x.vals[0]) in arch])
        purge_fields |= {v[0] for v in loops.values()}
        inloop = set().union(*[v[1] for v in loops.values()]) if loops else set()
        msites = [s for s in msites if s.node not in inloop]
        e = E(g, arch, files, loops)
        e.run([(g.rpo[0], {}, (frozenset(), frozenset()), "in")])
        if e.exceeded:
            ctx.violation("undecided:" + p, "too many paths in %s" % p, fn["span"])
        if e.unknown is not None:
            ctx.violation("unknown-table:" + p, "%s uses a handle table the analysis cannot identify" % p, g.span(e.unknown.id))
        # (3)
        uses_handle = any(MAPCALL.search(s.fn).group(1) in FIND for s in msites)
        opened = any(MAPCALL.search(s.fn).group(1) == "insert" for s in msites)
        ty = fn["locals"][0]["ty"]
        for rv, ust, cur in e.rets:
            val = rv[1] if rv is not None and rv[0] == "i" else None
            ok = (val != 0) if ty == "bool" else (val != 0xFFFFFFFF)
            ctx.count("return_states")
            if uses_handle and ok and "found" not in ust[1]:
                ctx.violation("success-without-handle:" + p, "%s can report success although no lookup of the handle succeeded (closed or made-up handle)" % p, fn["span"], e.trail(cur))
            if "removed" in ust[1] and "purged" not in ust[1]:
                ctx.violation("no-purge:" + p, "%s can return after removing an archive without purging its file handles afterwards; they stay usable" % p, fn["span"], e.trail(cur))
        for node, ust, cur in e.inserts:
            ctx.count("file_insertions")
            if not (arch & ust[0]) or "present" not in ust[1]:
                ctx.violation("insert-unprotected:" + p, "%s inserts a file handle %s; a concurrent close can leave it behind" %
                              (p, "without holding the archive table's lock" if not (arch & ust[0]) else "though the archive was not found under the lock now held"), g.span(node.id), e.trail(cur))
        # (1), (2): values
        stores = []
        for nid, fr, x, st in I.steps():
            loc = I.loc_of(st, fr, x["p"])
            if loc[1] and loc[1][-1] == ("der",):
                old = I.simp(I.read(st, loc))
                if static_of(old) in counters and old.op == "der":
                    val = I.simp(I.rvalue(st, fr, x["v"], x.get("sp")))
                    stores.append((nid, old, val, x.get("sp")))
        for nid, old, val, sp in stores:
            d = add(val, old, -1)
            ctx.count("counter_stores")
            if not (is_c(d) and 0 < d.a[0] < 2 ** 32):
                ctx.violation("counter:" + p, "%s stores %s into the handle counter; ids could be given out twice" % (p, show(val)[:100]), sp)
        for s in I.sites():
            if s.vals and "atomic::Atomic" in s.fn and static_of(s.vals[0]) in counters and not s.fn.endswith(("::fetch_add", "::load")):
                ctx.violation("counter:" + p, "%s changes the handle counter by %s; ids could be given out twice" % (p, s.fn.rsplit("::", 1)[-1]), s.sp)
        given = set()
        for s in msites:
            op = MAPCALL.search(s.fn).group(1)
            tab = static_of(s.vals[0])
            if op == "insert":
                key = s.vals[1]
                given.add(key)
                ctx.count("insertions")
                fa = key if key.op in ("call", "pure") and str(key.a[0]).endswith("fetch_add") else None
                if fa is not None and static_of(fa) in counters:
                    ids.add(static_of(fa))
                    step = fa.a[-1][1]
                    if not (is_c(step) and 0 < step.a[0] < 2 ** 32):
                        ctx.violation("counter:" + p, "%s advances the handle counter by %s; ids could be given out twice" % (p, show(step)[:60]), s.sp)
                elif key.op == "der" and static_of(key) in counters:
                    ids.add(static_of(key))
                    st_n = {n for n, old, val, sp in stores if old is key}
                    if not st_n:
                        ctx.violation("no-advance:" + p, "%s gives out a handle id without advancing the counter under the lock it read it with" % p, s.sp)
                    elif s.node in g.forward([g.rpo[0]], stop=lambda i: i in st_n):
                        ctx.violation("no-advance:" + p, "a path of %s gives out a handle id without advancing the counter" % p, s.sp)
                else:
                    ctx.violation("id-source:" + p, "%s inserts a handle under %s, not under the value of the handle counter" % (p, show(key)[:100]), s.sp)
                if tab in files:
                    v = s.vals[2]
                    ak = [x.vals[1] for x in msites if static_of(x.vals[0]) in arch]
                    ak = {deref(x) for x in ak}
                    hit = [i for i, x in enumerate(v.a[-1] if v.op == "agg" and isinstance(v.a[-1], tuple) else fields_of(v)) if x in ak]
                    if len(hit) != 1:
                        ctx.violation("owner:" + p, "%s stores a file handle that does not record the archive it was opened from" % p, s.sp)
                    else:
                        owner_fields.add(hit[0])
            elif op in FIND:
                key = deref(s.vals[1])
                b = uncast(key)
                ctx.count("lookups")
                if not (b.op == "param" and b.a[0] in handles):
                    ctx.violation("key:" + p, "%s looks up %s, which is not the id of a handle argument" % (p, show(key)[:100]), s.sp)
            elif op in ("retain", "extract_if") and tab in files:
                fld = retain_rule(ctx, prog, I, s, p, [deref(x.vals[1]) for x in msites if MAPCALL.search(x.fn).group(1).startswith("remove") and static_of(x.vals[0]) in arch])
                if fld is not None:
                    purge_fields.add(fld)
            elif op not in ("len", "is_empty", "iter", "keys", "values"):
                ctx.violation("table-op:%s:%s" % (p, op), "%s changes a handle table in a way the rule does not cover: %s" % (p, op), s.sp)
        if opened:
            outs = 0
            for nid, fr, x, st in I.steps():
                loc = I.loc_of(st, fr, x["p"])
                if loc[0][0] == "M" and not loc[1] and loc[0][1].op == "param":
                    val = I.simp(I.rvalue(st, fr, x["v"], x.get("sp")))
                    if "c_void" in prog.fns[p]["locals"][loc[0][1].a[0]]["ty"]:
                        outs += 1
                        if uncast(val) not in given and not is_c(uncast(val), 0):
                            ctx.violation("out-handle:" + p, "%s returns %s as the handle, not the id it stored" % (p, show(val)[:80]), x.get("sp"))
            if not outs:
                ctx.violation("no-out-handle:" + p, "%s never returns the handle" % p, fn["span"])
        for s in msites:
            if MAPCALL.search(s.fn).group(1) not in ("insert",) and len(s.vals) > 1:
                ctx.sample("%s: %s keyed by %s" % (p, s.fn.split("::")[-1], show(s.vals[1])[:60]))
    if len(ids) > 1:
        ctx.violation("two-counters", "handle ids come from different counters %s: an archive and a file can share an id" % sorted(ids))
    if owner_fields and purge_fields and owner_fields != purge_fields:
        ctx.violation("purge-field", "closing an archive purges files by field %s, but opening a file records its archive in field %s" % (sorted(purge_fields), sorted(owner_fields)))
    if not purge_fields:
        ctx.violation("no-purge", "closing an archive never purges its file handles")
    # counter start
    for c in sorted(ids):
        raw = prog.statics[c].get("raw")
        if raw:
            ctx.count("counter_initialisers")
            if not any(raw[-8:]):
                ctx.violation("counter-start", "the handle counter starts at 0: the first handle would be NULL", prog.statics[c]["span"])
        for q, f in prog.fns.items():
            if q.startswith(c + "::{closure") or q == c:
                I = Interp(ffi_graph(prog, q))
                for s in I.sites():
                    if re.search(r"(Mutex|Atomic\w*)(::<.*>)?::new$", s.fn):
                        ctx.count("counter_initialisers")
                        v = s.vals[0]
                        if not (is_c(v) and 0 < v.a[0] < 2 ** 32):
                            ctx.violation("counter-start", "the handle counter starts at %s: the first handle would be NULL or invalid" % show(v), s.sp)
    ctx.floor("counter_initialisers", 1)
    ctx.floor("insertions", 1)
    ctx.floor("lookups", 4)
    ctx.floor("file_insertions", 1)
    ctx.floor("counter_stores", 1) if not any("Atomic" in prog.statics[c]["ty"] for c in ids) else None


def fields_of(v):
    return list(v.a[1:]) if v.op not in ("agg",) else list(v.a)


def deref(t):
    while t.op in ("&", "*"):
        t = t.a[0]
    return t


def retain_rule(ctx, prog, I, s, p, removed):
    """the closure keeps exactly the files whose owner field differs from the removed key"""
    return keep_rule(ctx, prog, I, s, p, removed, True)


def keep_rule(ctx, prog, I, s, p, removed, want):
    c = s.vals[1]
    if c.op == "agg" and c.a[0] == "closure" and c.a[1] in prog.fns:
        q = c.a[1]
        caps = [I.dv(s.st, x) for x in c.a[3]]
    else:
        ctx.violation("purge-closure:" + p, "the purge condition of %s could not be found" % p, s.sp)
        return None
    J = Interp(ffi_graph(prog, q))
    rs = list(J.retval.values())
    if len(rs) != 1:
        ctx.violation("purge-condition:" + p, "the purge condition of %s is not a single comparison" % p, s.sp)
        return None
    r = rs[0]
    ctx.count("purge_conditions")
    neg = False
    t = r
    while t.op == "not":
        neg = not neg
        t = t.a[0]
    if t.op == "ne":
        neg = not neg
    if t.op not in ("eq", "ne") or neg != want:
        ctx.violation("purge-condition:" + p, "%s keeps files by `%s`, not those of other archives" % (p, show(r)[:100]), s.sp)
        return None
    fld = [x for x in t.a if x.op == "f" and any(y.op == "param" and y.a[0] == (3 if want else 2) for y in subterms(x))]
    up = [x for x in t.a if any(y.op == "param" and y.a[0] == 1 for y in subterms(x))]
    if len(fld) != 1 or len(up) != 1:
        ctx.violation("purge-condition:" + p, "%s keeps files by `%s`" % (p, show(r)[:100]), s.sp)
        return None
    idx = [y.a[1] for y in subterms(up[0]) if y.op == "f" and isinstance(y.a[1], int)]
    cap = caps[idx[0]] if idx and idx[0] < len(caps) else None
    if cap not in removed:
        ctx.violation("purge-key:" + p, "%s purges the files of %s, not of the archive it removed" % (p, show(cap)[:80] if cap is not None else "?"), s.sp)
    ctx.sample("%s keeps files with %s" % (p, show(r)[:100]))
    return fld[0].a[2][1]
