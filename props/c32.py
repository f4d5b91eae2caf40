import re
from common import *
from filefmt import *
from buildmodel import build_model, fields
import c17
import c30
import sectors
from c17 import bare, mk_arg

RULE = ("Term dataflow (symbolic values per program point, merges taken apart) and path-sensitive flags. Every public function of ArchiveBuilder that adds a file appends exactly one pending file whose source, name, "
        "compression, encryption, key kind and locale are its own arguments, or the documented defaults (default compression, not encrypted, locale 0) where it has none; every setter changes its own setting to its argument "
        "and nothing else.  At each call storing a pending file, content (the data given, or what reading the given path returned), name, compression and encryption options are those of one and the same file.  In the "
        "store-one-file function, at every successful return: ENCRYPTED iff encryption was asked for, FIX_KEY iff asked for as well, SECTOR_CRC iff the builder generates checksums, and nothing compressed if no method was asked for.")

B = "mopaq::builder::ArchiveBuilder"
SETTERS = {"version": "version", "block_size": "block_size", "default_compression": "default_compression", "listfile_option": "listfile_option",
           "generate_crcs": "generate_crcs", "compress_tables": "compress_tables", "table_compression": "table_compression"}
KEEP = re.compile(r"::(to_string|to_owned|clone|into|from|as_ref|as_str|deref|replace|to_path_buf|into_string|borrow|as_path|into_owned|to_string_lossy|normalize_\w+|normalise_\w+)$")


def fieldmap(prog, adt):
    return {f: i for i, f in enumerate(fields(prog, adt))}


def get(I, t, adt, names, name):
    return I.simp(I.proj(t, ("f", names[name], "%s.%s" % (adt.rsplit("::", 1)[-1], name))))


def unwrap(t):
    """strip conversions that keep the value"""
    while True:
        t = bare(t)
        if t.op in ("call", "pure") and KEEP.search(str(t.a[0])):
            a = t.a[2] if t.op == "call" else t.a[1]
            if not a:
                return t
            t = a[0]
        else:
            return t


def api(ctx):
    prog = ctx.prog
    names = fieldmap(prog, B)
    pf = "mopaq::builder::PendingFile"
    pnames = fieldmap(prog, pf)
    for f in sorted(prog.fns):
        fn = prog.fns[f]
        short = f[len(B) + 2:]
        if not f.startswith(B + "::") or "::" in short or not fn.get("pub"):
            continue
        adds, sets = short.startswith("add_"), short in SETTERS
        if not adds and not sets:
            continue
        ctx.functions.add(f)
        g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::builder"))
        I = Interp(g)
        args = [mk_arg(prog, f, i, I) for i in range(fn["argc"])]
        tys = [l["ty"] for l in fn["locals"][1:fn["argc"] + 1]]
        rets = []
        for n in g.returns:
            t = I.read(I.at_term(n), (("L", g.root.id, 0), ()))
            rets += [(n, x) for x in sectors.alternatives(I, t)]
        for n, t in rets:
            t0 = t
            if t.op == "agg" and t.a[1].endswith("Result"):
                if t.a[2] == ERR:
                    continue
                t0 = t.a[3][0]
            old = {x: get(I, args[0], B, names, x) for x in names}
            new = {x: get(I, t0, B, names, x) for x in names}
            if sets:
                ctx.count("setters")
                for x in names:
                    want = args[1] if x == SETTERS[short] else old[x]
                    if bare(new[x]) is not bare(want):
                        ctx.violation("setter:%s:%s" % (short, x), "%s leaves %s = %s; expected %s" % (f, x, show(new[x])[:80], show(want)[:80]), g.span(n))
                continue
            ctx.count("add_functions")
            for x in names:
                if x != "pending_files" and bare(new[x]) is not bare(old[x]):
                    ctx.violation("add:%s:%s" % (short, x), "%s changes the builder's %s" % (f, x), g.span(n))
            p = bare(new["pending_files"])
            e = None
            if p.op == "push" and bare(p.a[0]) is bare(old["pending_files"]):
                e = I.simp(p.a[1])
            if e is None:
                ctx.violation("add:%s" % short, "%s does not append one file to the pending files: %s" % (f, show(p)[:120]), g.span(n))
                continue
            v = {x: get(I, e, pf, pnames, x) for x in pnames}
            pos = lambda pred: [a for a, ty in list(zip(args, tys))[1:] if pred(ty)]
            u8, u16, bl = pos(lambda y: y == "u8"), pos(lambda y: y == "u16"), pos(lambda y: y == "bool")
            enc = short.endswith("_encryption")
            want = {"compression": u8[0] if u8 else old["default_compression"], "locale": u16[0] if u16 else 0,
                    "encrypt": 1 if enc else bl[0] if bl else 0, "use_fix_key": bl[0] if enc and bl else 0}
            for x, w in want.items():
                ctx.count("options_kept")
                got = bare(v[x])
                if is_c(got, w) if isinstance(w, int) else got is bare(w):
                    continue
                ctx.violation("option:%s:%s" % (short, x), "%s files the %s %s; expected %s" % (f, x, show(got)[:80], w if isinstance(w, int) else show(w)[:80]), g.span(n))
            name = next((a for a, ty in list(zip(args, tys))[1:][::1] if ty.startswith("&") and "str" in ty), None)
            if name is not None and unwrap(v["archive_name"]) is not unwrap(name):
                ctx.violation("option:%s:name" % short, "%s files the name %s; expected the one given" % (f, show(v["archive_name"])[:80]), g.span(n))
            src = args[1]
            s = I.simp(v["source"])
            kind = 1 if "Vec<u8>" in tys[1] or "[u8]" in tys[1] else 0
            if s.op != "agg" or s.a[2] != kind or unwrap(s.a[3][0]) is not unwrap(src):
                ctx.violation("option:%s:source" % short, "%s files the source %s; expected the %s given" % (f, show(s)[:80], "data" if kind else "path"), g.span(n))
    ctx.floor("setters", 7)
    ctx.floor("add_functions", 6)


def sources(ctx):
    """what is stored for a pending file is that file's own content, name and options"""
    prog = ctx.prog
    g, I, ws, enc = build_model(ctx)
    for s in I.sites():
        if s.fn not in ws:
            continue
        ctx.count("store_calls")
        flat = []
        todo = [I.dv(s.st, a) for a in s.vals]
        whole = False
        while todo:
            t = I.dv(s.st, I.simp(todo.pop()))
            t = bare(t)
            if t.op == "ref":
                t = bare(I.dv(s.st, t))
            if t.op == "agg":
                todo += t.a[3]
            else:
                flat.append(t)
                whole = whole or t.op != "f" and c17.pending(I, t) is not None
        f = c17.written_file(I, s)
        if f is None:
            continue            # C17
        if whole:
            continue
        data = False
        for t in flat:
            if t.op in ("out", "upd"):
                continue
            alts = [sectors.bare(a) for a in sectors.alternatives(I, t)]
            has = [any(x.op == "f" and str(x.a[1]) == "PendingFile.source" for x in subterms(a)) for a in alts]
            if not any(has):
                continue
            data = True
            for a, h in zip(alts, has):
                ctx.count("contents")
                if not h:
                    ctx.violation("store:invented", "%s can store %s as a file's content: it is neither the data given nor read from the path given" % (g.nodes[s.node].frame.path, show(a)[:100]), g.span(s.node))
                elif a.op in ("slice", "fill", "push", "ext"):
                    ctx.violation("store:altered", "%s stores %s; expected the file's whole content" % (g.nodes[s.node].frame.path, show(a)[:100]), g.span(s.node))
                else:
                    fs = c17.files_in(I, a, set())
                    if fs and f not in fs:
                        ctx.violation("store:other", "%s stores another file's content" % g.nodes[s.node].frame.path, g.span(s.node))
        if not data:
            ctx.violation("store:content", "%s: the content stored could not be traced to a pending file" % g.nodes[s.node].frame.path, g.span(s.node))
        for o in ("compression", "encrypt", "use_fix_key", "archive_name"):
            cand = []
            for t in flat:
                alts = sectors.alternatives(I, t)
                m = [c17.member(I, a, o) for a in alts]
                if any(x is not None for x in m):
                    cand.append((m, alts))
            ctx.count("options_passed")
            ok = [1 for m, alts in cand if all(x is f or o == "use_fix_key" and is_c(a, 0) for x, a in zip(m, alts))]
            if not ok:
                ctx.violation("store:%s" % o, "%s stores a file without passing on its own %s" % (g.nodes[s.node].frame.path, o), g.span(s.node))
    ctx.floor("store_calls", 1)
    ctx.floor("contents", 2)


def fact(facts, name):
    """truth of the option in the branch facts: True, False or None"""
    for c, p in facts:
        u = bare(c)
        if u.op == "f" and str(u.a[1]).endswith("." + name):
            return p
        if u.op == "not" and bare(u.a[0]).op == "f" and str(bare(u.a[0]).a[1]).endswith("." + name):
            return not p
        if u.op == "eq":
            xs = [bare(x) for x in u.a]
            k = [x for x in xs if is_c(x)]
            m = [x for x in xs if x.op == "f" and str(x.a[1]).endswith("." + name)]
            if k and m and k[0].a[0] in (0, 1):
                if k[0].a[0] == 0:
                    return not p
                return p
    return None


def honoured(ctx):
    prog = ctx.prog
    ws = file_writers(prog)
    if len(ws) != 1:
        ctx.violation("writer", "expected one function of the builder that stores a file and returns its flags, found %s" % ws)
        return
    w = ws[0]
    g = writer_graph(prog, w)
    ctx.functions |= {fr.path for fr in g.frames}
    e = c30.W(g, prog)
    e.start(((), frozenset()))
    sp = prog.fns[w]["span"]
    if e.exceeded:
        ctx.violation("undecided:writer", "too many paths in %s" % w, sp)
    for rv, ust, cur in e.rets:
        f = c30.flat_flags(rv)
        if f in ("err", "?"):
            continue
        ctx.count("store_returns")
        facts, ev = ust[0], ust[2][1]
        en, fx, cr = (fact(facts, x) for x in ("encrypt", "use_fix_key", "generate_crcs"))
        say = "%s returns flags %s" % (w, c30.bits(f))
        tell = lambda x: {None: "was not consulted", True: "was asked for", False: "was not asked for"}[x]
        if en is None or en != bool(f & F_ENCRYPTED):
            ctx.violation("encrypt:%s" % en, "%s: encryption %s" % (say, tell(en)), sp, e.trail(cur))
        if bool(f & F_FIX) != bool(en and fx) or en and fx is None:
            ctx.violation("fixkey:%s" % fx, "%s: the position-adjusted key %s" % (say, tell(fx)), sp, e.trail(cur))
        if cr is None or cr != bool(f & F_CRC):
            ctx.violation("crc:%s" % cr, "%s: a checksum %s" % (say, tell(cr)), sp, e.trail(cur))
        if "comp" in ev and fact(facts, "compression") is not True:
            ctx.violation("compress", "%s with compressed data though no compression method was asked for" % say, sp, e.trail(cur))
    ctx.floor("store_returns", 16)


def run(ctx):
    ctx.rule = RULE
    if not ctx.need(B + "::build"):
        return
    api(ctx)
    sources(ctx)
    honoured(ctx)
