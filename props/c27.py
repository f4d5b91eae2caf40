import re
from common import *
from filefmt import *
from buildmodel import build_model, aggs, fields
import c17
import sectors
from terms import T
from sectors import Rounds, OPTION
from c17 import bare, mk_arg, EMPTY, DELETED
from c32 import unwrap

RULE = ("Term dataflow and path-sensitive dataflow over the listing functions of Archive. Every entry reported takes size, stored size and flags from one and the same lookup: of the listed name itself, of the loop's own "
        "BET index, or of the block the loop's own hash entry names (with that hash entry's name hashes).  The loops run over all names of the (listfile), all BET entries or all hash entries; a round ends without "
        "reporting its entry only if the name is not in the archive, the entry is unused, deleted or without EXISTS, its block does not exist or was reported already; success comes only after the last round and nothing is "
        "removed afterwards.  The generated (listfile) gets the name of every pending file, each on its own line, and is itself added; parsing it drops only empty lines and comments.")

A = "mopaq::archive::Archive::"
LISTS = [A + x for x in ("list", "list_all", "list_with_hashes", "list_all_with_hashes")]
OPAQUE = re.compile(r"::(find_file|read_file|get_file_info|parse_listfile)$")
F_EXISTS = 0x80000000


def inlined(q, fr):
    return (q.startswith("mopaq::archive") or q.startswith("mopaq::tables")) and not OPAQUE.search(q)


def fn_of(t):
    return str(t.a[0]) if t.op in ("call", "pure") else ""


def args_of(t):
    return t.a[2] if t.op == "call" else t.a[1]


def lookups(t):
    return [x for x in subterms(t) if x.op in ("call", "pure") and (re.search(r"::(find_file|get_file_info)$", fn_of(x)) or fn_of(x).endswith("::get") and "BlockTable.entries" in deep(x))]


def deep(t):
    return " ".join(str(x.a[1]) for x in subterms(t) if x.op == "f" and len(x.a) > 1)


def closure_of(t):
    for x in subterms(t):
        if x.op == "agg" and "{closure" in str(x.a[1]):
            return str(x.a[1])
        if x.op in ("fn", "closure"):
            return str(x.a[0])
    return None


class Keep(FactEsp):
    def __init__(self, g):
        super().__init__(g)
        self.bad = False

    def relevant(self, c):
        return excuse(self.I, c, True) or excuse(self.I, c, False)

    def on_edge(self, env, ust, node, lab, w):
        r = super().on_edge(env, ust, node, lab, w)
        if r == "STOP":
            return r
        nf = (self.facts_on(node.id, lab) or frozenset()) | self.chosen(ust[0], node.id, lab)
        return (r[0], r[1], True) if any(excuse(self.I, c, p) for c, p in nf) else r

    def on_return(self, env, ust, node, rv):
        if ust[2] or rv is not None and rv[0] == "i" and rv[1]:
            return
        if rv is None:
            t = self.I.simp(self.I.read(self.I.at_term(node.id), (("L", self.g.root.id, 0), ())))
            ts = [self.I.simp(x) for x in self.I.phi_in.get(t, {}).values()] if t.op == "phi" else [t]
            if all(excuse(self.I, x, False) or is_c(x, 1) for x in ts if not is_c(x, 0)):
                return
        self.bad = True


def keeps(prog, c):
    """does the filter drop only what need not be reported?"""
    key = ("c27keeps", c)
    if c not in prog.fns:
        return False
    memo = prog.__dict__.setdefault("_c27", {})
    if key not in memo:
        g = Graph(prog, c, inline=lambda q, fr: q.startswith("mopaq::tables") or q.startswith("mopaq::archive"))
        e = Keep(g)
        e.start(False)
        memo[key] = not e.bad and not e.exceeded
    return memo[key]


def found(z, prog):
    """an Option saying whether the entry exists"""
    z = bare(z)
    while z.op in ("call", "pure") and re.search(r"::(cloned|copied|as_ref|map|filter)$", fn_of(z)):
        if fn_of(z).endswith("filter") and not keeps(prog, closure_of(args_of(z)[1])):
            return False
        z = bare(args_of(z)[0])
    if z.op == "f" and bare(z.a[0]).op == "dc":
        y = bare(bare(z.a[0]).a[0])
        return fn_of(y).endswith("::find_file")
    return bool(fn_of(z)) and z in lookups(z) and not fn_of(z).endswith("::find_file")


def seen(c):
    """a set of the entries reported so far: keyed by the whole index or name"""
    return unwrap(args_of(c)[1]).op in ("f", "next", "dc")


def excuse(I, c, pol):
    """does the branch say that there is nothing to report?"""
    while c.op == "not":
        c, pol = c.a[0], not pol
    if c.op == "call" and re.search(r"::insert$", fn_of(c)) and not pol:
        return seen(c)
    if c.op in ("call", "pure") and re.search(r"::contains(_key)?$", fn_of(c)) and pol:
        return seen(c)
    if c.op == "eq":
        for x, y in (c.a, c.a[::-1]):
            y = bare(y)
            if not is_c(x):
                continue
            k = x.a[0]
            if y.op == "discr":
                z = bare(y.a[0])
                zs = [z] + (list(dict.fromkeys(I.phi_in.get(z, {}).values())) if z.op == "phi" else [])
                for z in zs:
                    if found(z, I.g.prog) and (k == 0 and pol or k == 1 and not pol):
                        return True
            if y.op == "and" and k == 0 and pol and any(is_c(q, F_EXISTS) for q in y.a):
                return True
            if y.op == "f" and str(y.a[1]) == "HashEntry.block_index" and pol and k in (EMPTY, DELETED):
                return True
            if y.op in ("call", "pure") and re.search(r"::insert$", fn_of(y)):
                return seen(y) and (k == 0 and pol or k == 1 and not pol)
    if c.op == "lt":
        a, b = bare(c.a[0]), bare(c.a[1])
        if a.op == "f" and str(a.a[1]) == "HashEntry.block_index" and not pol and (is_c(b, DELETED) or is_c(b, EMPTY) or "BlockTable" in deep(b)):
            return True
    return False


class Fill(Rounds):
    def __init__(self, g, I, nxt, adds):
        super().__init__(g, I, nxt, adds)

    def relevant(self, c):
        return c.op in ("eq", "lt", "call", "pure") and (excuse(self.I, c, True) or excuse(self.I, c, False))

    def on_edge(self, env, ust, node, lab, w):
        r = super().on_edge(env, ust, node, lab, w)
        if r == "STOP" or r[2] != 0:
            return r
        nf = self.facts_on(node.id, lab) or frozenset()
        nf = nf | self.chosen(ust[0], node.id, lab)
        if any(excuse(self.I, c, p) for c, p in nf):
            return (r[0], r[1], "excused")
        return r

    def on_return(self, env, ust, node, rv):
        if rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR:
            return
        if ust[2] in (0, 1, "excused"):
            self.bad.setdefault("partial", self.cur)


def list_function(ctx, f):
    prog = ctx.prog
    if not ctx.need(f):
        return
    g = Graph(prog, f, inline=inlined)
    I = Interp(g)
    ctx.functions |= {fr.path for fr in g.frames}
    adt = "mopaq::archive::FileEntry"
    names = fields(prog, adt)
    sites = {s.node: s for s in I.sites()}
    pushes = {}
    for n, s in sites.items():
        if s.fn.endswith("::push"):
            v = I.simp(I.dv(s.st, s.vals[1]))
            if v.op == "agg" and v.a[1] == adt:
                pushes[n] = v
        if re.search(r"Vec::<T, A>::(truncate|retain|retain_mut|pop|remove|swap_remove|drain|clear|split_off)$", s.fn):
            ctx.violation("removed:" + f, "%s takes entries out of a list again (%s)" % (g.nodes[n].frame.path, s.fn.rsplit("::", 1)[-1]), g.span(n))
    for n, v in pushes.items():
        ctx.count("entries_reported")
        d = dict(zip(names, v.a[3]))
        where = g.nodes[n].frame.path
        bases = {}
        for x, want in (("size", "file_size"), ("compressed_size", "compressed_size"), ("flags", "flags")):
            u = bare(d[x])
            if u.op != "f" or str(u.a[1]).split(".")[-1] != want:
                ctx.violation("entry:%s" % x, "%s reports %s as %s of a file; expected the %s of its table entry" % (where, show(u)[:100], x, want), g.span(n))
            else:
                bases[x] = u.a[0]
        if len(set(bases.values())) > 1:
            ctx.violation("entry:mixed", "%s mixes the data of different table entries" % where, g.span(n))
        if not bases:
            continue
        b = next(iter(bases.values()))
        ls = [x for x in lookups(b)]
        if not ls:
            ctx.count("entries_undecided")
            continue
        l = ls[0]
        key = unwrap(args_of(l)[1])
        nx = [x for x in subterms(key) if x.op == "next"]
        if fn_of(l).endswith("::find_file"):
            if unwrap(d["name"]) is not key:
                ctx.violation("entry:name", "%s reports %s under the name %s" % (where, show(key)[:80], show(d["name"])[:80]), g.span(n))
        elif fn_of(l).endswith("::get_file_info"):
            if not nx or key.op != "f" or not bare(key.a[0]).op == "dc":
                ctx.violation("entry:index", "%s looks up entry %s; expected the loop's own index" % (where, show(key)[:80]), g.span(n))
        else:
            if key.op != "f" or str(key.a[1]) != "HashEntry.block_index":
                ctx.violation("entry:index", "%s looks up block %s; expected the block of the loop's own hash entry" % (where, show(key)[:80]), g.span(n))
            h = I.simp(d["hashes"])
            if h.op == "agg" and h.a[2] == 1 and key.op == "f":
                p = I.simp(h.a[3][0])
                got = [bare(x) for x in p.a[3]] if p.op == "agg" else []
                ctx.count("hashes_reported")
                if [(x.op, str(x.a[1]) if x.op == "f" else None, x.a[0] if x.op == "f" else None) for x in got] != [("f", "HashEntry.name_1", key.a[0]), ("f", "HashEntry.name_2", key.a[0])]:
                    ctx.violation("entry:hashes", "%s reports %s as name hashes; expected the two of the entry's own hash entry" % (where, show(p)[:100]), g.span(n))
        if f.endswith("_all_with_hashes") and not fn_of(l).endswith("::get_file_info"):
            h = I.simp(d["hashes"])
            if h.op == "agg" and h.a[2] == 0:
                ctx.violation("entry:hashes", "%s reports no name hashes" % where, g.span(n))
    # loops
    loops = {}
    for n in pushes:
        nxt, body = sectors.loop_at(I, g, n)
        if nxt is None:
            ctx.count("loops_undecided")
            continue
        loops.setdefault(nxt.node, (nxt, set()))[1].add(n)
    for nid, (nxt, adds) in loops.items():
        where = g.nodes[nid].frame.path
        ctx.count("loops")
        chain = I.simp(I.dv(nxt.st, nxt.vals[0]))
        cut = [x for x in subterms(chain) if x.op in ("call", "pure", "skip", "take") and re.search(r"(^|::)(skip|take|step_by|take_while|skip_while|map_while|filter)$", str(x.a[0]) if x.op in ("call", "pure") else x.op)
               and not (fn_of(x).endswith("filter") and keeps(prog, closure_of(args_of(x)[1])))]
        rng = [x for x in subterms(chain) if x.op == "agg" and str(x.a[1]).endswith("Range")]
        if cut:
            ctx.violation("cut", "%s does not run over all entries: %s" % (where, show(chain)[:100]), g.span(nid))
        for r in rng:
            if not is_c(bare(r.a[3][0]), 0):
                ctx.violation("cut", "%s starts its listing at entry %s" % (where, show(r.a[3][0])[:60]), g.span(nid))
            e = bare(r.a[3][1])
            if e.op == "f" and str(e.a[1]) == "BetHeader.file_count" or e.op == "len" and "HashTable.entries" in deep(e):
                continue
            ctx.violation("cut", "%s ends its listing at %s; expected the number of table entries" % (where, show(e)[:80]), g.span(nid))
        r = Fill(g, I, nid, adds)
        r.start("before")
        if r.exceeded:
            ctx.violation("undecided:" + f, "too many paths through %s" % f, g.span(nid))
        say = {"skipped": "a file can be left out though it exists", "twice": "a file can be reported twice", "partial": "the listing can end before the last entry"}
        for k, cur in r.bad.items():
            ctx.violation("listing:" + k, "%s: %s" % (where, say[k]), g.span(nid), r.trail(cur))
    # hashes of listed names
    if f.endswith("::list_with_hashes"):
        n = 0
        for nid, fr, x, st in I.steps():
            p = x["p"]
            if len(p) > 1 and p[1]:
                loc = I.loc_of(st, fr, p)
                if "FileEntry.hashes" in str(loc):
                    v = I.simp(I.rvalue(st, fr, x["v"], x.get("sp")))
                    n += 1
                    tup = I.simp(v.a[3][0]) if v.op == "agg" and v.a[2] == 1 else None
                    if tup is None or tup.op != "agg":
                        ctx.count("hashes_undecided")
                        continue
                    hs = [c17.hashed(I, y, k + 1) for k, y in enumerate(tup.a[3])]
                    if len(hs) != 2 or any(h is None for h in hs) or any("FileEntry.name" not in deep(h) for h in hs):
                        ctx.violation("entry:hashes", "%s reports %s as name hashes; expected hash A and hash B of the entry's name" % (f, show(tup)[:100]), x.get("sp"))
        ctx.count("hash_stores", n)


def generated(ctx):
    """the generated (listfile) names every pending file"""
    prog = ctx.prog
    f = "mopaq::builder::ArchiveBuilder::prepare_listfile"
    g, I, ws, enc = build_model(ctx)
    found = 0
    for nid, fr, t, st, sp in aggs(I, "mopaq::builder::PendingFile"):
        d = dict(zip(fields(prog, "mopaq::builder::PendingFile"), t.a[3]))
        src = I.simp(d["source"])
        if src.op != "agg" or src.a[2] != 1:
            continue
        c = unwrap(src.a[3][0])
        heads = getattr(I, "heads", ())
        nm = unwrap(d["archive_name"])
        if "(listfile)" not in show(nm):
            continue
        found += 1
        exts = {}
        for s in I.sites():
            if re.search(r"String::(push_str|push)$|::(extend_from_slice|write_str|write_fmt)$", s.fn):
                exts[s.node] = s
        if any(x.op == "call" and fn_of(x).endswith("::read") for x in subterms(c)):
            ctx.count("external_listfiles")
            continue
        # names added in a loop over the pending files
        adds = {n for n, s in exts.items() if any(y.op == "f" and str(y.a[1]) == "PendingFile.archive_name" for y in subterms(I.dv(s.st, s.vals[-1])) | {z for q in subterms(I.dv(s.st, s.vals[-1])) if q.op == "ref" for z in subterms(I.dv(s.st, q))})}
        if not adds:
            ctx.count("generated_undecided")
            continue
        loops = {}
        for n in adds:
            nxt, body = sectors.loop_at(I, g, n)
            if nxt is not None:
                loops.setdefault(nxt.node, (nxt, set(), body))[1].add(n)
        for k, (nxt, ad, body) in loops.items():
            ctx.count("generated_loops")
            chain = I.simp(I.dv(nxt.st, nxt.vals[0]))
            cut = [x for x in subterms(chain) if x.op in ("call", "pure") and re.search(r"::(skip|take|step_by|take_while|skip_while|map_while|filter)$", fn_of(x))]
            if cut or "ArchiveBuilder.pending_files" not in deep(chain):
                ctx.violation("generated:cut", "%s does not run over all pending files: %s" % (g.nodes[k].frame.path, show(chain)[:100]), g.span(k))
            top = g.nodes[k].frame
            r = Inside(g, I, k, ad)
            r.start("before")
            for w, cur in r.bad.items():
                if w == "skipped":
                    ctx.violation("generated:skipped", "%s can leave a file's name out of the (listfile)" % top.path, g.span(k), r.trail(cur))
            if r.exceeded:
                ctx.violation("undecided:generated", "too many paths through %s" % top.path, g.span(k))
            ends = []
            for n, s in exts.items():
                if n in body:
                    v = I.dv(s.st, s.vals[-1])
                    ends += [x for x in subterms(v)]
            txt = " ".join(show(x) for x in ends if x.op in ("s", "c", "bytes", "str"))
            nl = any(x.op == "c" and x.a[0] == 10 or "\\n" in repr(x.a) or x.op in ("call", "pure") and "format" in fn_of(x) or "write_fmt" in fn_of(x) for x in ends) or any(s.fn.endswith("write_fmt") for n, s in exts.items() if n in body)
            if not nl:
                ctx.violation("generated:lines", "%s adds names to the (listfile) without ending the line" % top.path, g.span(k))
    ctx.count("listfiles_added", found)
    ctx.floor("listfiles_added", 1)


class Inside(Rounds):
    """only the rounds of the loop, nothing after it"""
    def __init__(self, g, I, nxt, adds):
        super().__init__(g, I, nxt, adds)
        pred = {}
        for n in g.rpo:
            for _, w in g.nodes[n].succ:
                pred.setdefault(w, []).append(n)
        self.near, work = {nxt}, [nxt]
        while work:
            for u in pred.get(work.pop(), ()):
                if u not in self.near:
                    self.near.add(u)
                    work.append(u)

    def on_enter(self, env, ust, node):
        return super().on_enter(env, ust, node) if node.id in self.near else "STOP"

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if node.id == self.nxt:
            if cl == 0:
                self.bad.setdefault("skipped", self.cur)
            return [(("v", OPTION, 1, ()), 0)]
        return super().call(env, cl, node, fr, t, args, p, k, facts)


class Lines(FactEsp):
    """the closure that turns a line into a name"""
    def __init__(self, g):
        super().__init__(g)
        self.bad, self.kept = [], 0

    def relevant(self, c):
        return False

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        s = self.by.get(node.id)
        if re.search(r"::(is_empty)$", p):
            return [(("i", 1), "empty"), (("i", 0), cl)]
        if re.search(r"::starts_with$", p) and s is not None:
            v = s.vals[-1]
            ch = None
            if is_c(v):
                ch = chr(v.a[0]) if isinstance(v.a[0], int) and v.a[0] < 0x110000 else v.a[0]
            elif v.op == "s":
                ch = v.a[0]
            if ch is None:
                return [(("i", 1), "?"), (("i", 0), cl)]
            return [(("i", 1), "comment" if str(ch)[:1] in ";#" else "line starting with %r" % ch), (("i", 0), cl)]
        return None

    def on_return(self, env, ust, node, rv):
        if rv is not None and rv[0] == "v" and rv[1] == OPTION:
            if rv[2] == 0 and ust[2] not in ("empty", "comment", "?"):
                self.bad.append((ust[2], self.cur))
            if rv[2] == 1:
                self.kept += 1


def parsing(ctx):
    prog = ctx.prog
    f = "mopaq::special_files::listfile::parse_listfile"
    if not ctx.need(f):
        return
    g = Graph(prog, f, inline=lambda p, fr: p.startswith("mopaq::special_files"))
    for n in g.rpo:
        t = g.nodes[n].term
        k = ((t[2].get("f") or {}).get("k") or {}) if t and t[0] == "call" and isinstance(t[2], dict) else {}
        p = k.get("fn") or ""
        if re.search(r"Iterator::(skip|take|step_by|take_while|skip_while|map_while)$", p):
            ctx.violation("parse:cut", "%s does not look at every line of the (listfile) (%s)" % (f, p.rsplit("::", 1)[-1]), g.span(n))
    cl = [q for q in prog.fns if q.startswith(f + "::{closure") and "Option<alloc::string::String>" in prog.fns[q]["locals"][0]["ty"]]
    for q in cl:
        g = Graph(prog, q, inline=lambda p, fr: p.startswith("mopaq::special_files"))
        e = Lines(g)
        e.by = {s.node: s for s in e.I.sites()}
        e.start("start")
        ctx.count("line_filters")
        ctx.functions.add(q)
        I = e.I
        for n in g.returns:
            for t in sectors.alternatives(I, I.read(I.at_term(n), (("L", g.root.id, 0), ()))):
                if t.op != "agg" or t.a[2] != 1:
                    continue
                x = bare(t.a[3][0])
                ctx.count("names_parsed")
                while True:
                    if x.op in ("call", "pure") and args_of(x):
                        if re.search(r"::(trim\w*_matches|strip_prefix|strip_suffix|replace\w*|to_\w*lowercase|to_\w*uppercase|split_at)$", fn_of(x)):
                            ctx.violation("parse:altered", "%s alters the name: %s" % (q, show(x)[:80]), prog.fns[q]["span"])
                        x = bare(args_of(x)[0])
                    elif x.op == "slice":
                        if len(x.a) > 2 and any(isinstance(y, T) and y.op in ("min", "lin", "max", "saturating_sub") or isinstance(y, T) and y.op in ("call", "pure") and not fn_of(y).endswith("find") for y in map(bare, [z for z in x.a[1:] if isinstance(z, T)])):
                            ctx.violation("parse:altered", "%s cuts the name: %s" % (q, show(x)[:80]), prog.fns[q]["span"])
                        x = bare(x.a[0])
                    else:
                        break
        for why, cur in e.bad:
            ctx.violation("parse:dropped", "%s can drop a line that is neither empty nor a comment (%s)" % (q, why), prog.fns[q]["span"], e.trail(cur))


def run(ctx):
    ctx.rule = RULE
    for f in LISTS:
        list_function(ctx, f)
    generated(ctx)
    parsing(ctx)
    ctx.floor("entries_reported", 4)
