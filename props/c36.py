import re
import sectors
from common import *
from filefmt import *
from mir import Graph
from c17 import bare
from c27 import fn_of, args_of, deep, closure_of
from sectors import Rounds

RULE = ("Symbolic value-flow over the command line tool from main (all of its functions inlined), with the branch facts under which each value is chosen. The archive opened or built is the one named on the command line; every option "
        "given reaches the builder as that option (version, compression, sector size, listfile) and the directory walk (recursion, links); each entry walked is added, under its own path below the source, except directories and what "
        "matches an ignore pattern; extraction writes the content read for a name to a path made from that same name, for every name listed; listing and finding show every entry the archive lists, except what the given pattern "
        "excludes, from the listing function the flags ask for.")

MAIN = "storm_cli::main"
B = "mopaq::builder::ArchiveBuilder::"
A = "mopaq::archive::Archive::"
COMP = {"None": 0, "Zlib": 2, "Bzip2": 0x10, "Lzma": 0x12, "Sparse": 0x20, "Pkware": 8, "AdpcmMono": 0x40, "AdpcmStereo": 0x80}
COPY = re.compile(r"::(as_str|to_string|to_owned|clone|cloned|copied|into|from|as_ref|as_mut|deref|deref_mut|borrow|as_path|new|to_string_lossy|into_owned|unwrap|expect|unwrap_or_default|ok|branch|to_path_buf|as_deref|as_slice|to_vec|into_boxed_str|to_str|as_os_str|context|with_context|map_err|into_iter|iter|ok_or|ok_or_else|into_string|display|into_path_buf)$")
CUT = re.compile(r"::(skip|take|step_by|take_while|skip_while|map_while|filter_map|flatten|filter|filter_entry|dedup\w*|unique|rev_skip|nth|truncate|split_off|drain|pop|remove|swap_remove|clear|retain\w*|contents_first_skip|flat_map|chunks_exact|peekable_skip)$")


def peel(t):
    while True:
        if t.op in ("&", "*", "der"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[1]
        elif t.op == "f" and t.a[0].op == "dc" and not cmd(t):
            t = t.a[0].a[0]
        elif t.op in ("call", "pure") and COPY.search("::" + fn_of(t).rsplit("::", 1)[-1]) and args_of(t) and not fn_of(t).startswith("mopaq::") and not fn_of(t).startswith("walkdir::"):
            t = args_of(t)[0]
        else:
            return t


class Cmds:
    prog = None


def cmd(t):
    """'Create.source' when the term is a field of a subcommand as parsed"""
    prog = Cmds.prog
    if t.op != "f" or t.a[0].op != "dc":
        return None
    d = t.a[0]
    v = d.a[1]
    inner = d.a[0]
    while inner.op in ("&", "*", "der"):
        inner = inner.a[0]
    # the enum: (Cli.command as Archive).0
    if not (inner.op == "f" and inner.a[0].op == "dc" and "Cli.command" in deep(inner.a[0])):
        return None
    top = inner.a[0]
    base = top.a[0]
    while base.op in ("&", "*", "der"):
        base = base.a[0]
    if not (base.op == "f" and str(base.a[1]) == "Cli.command"):
        return None
    try:
        adt = prog.adts["storm_cli::Commands"]["variants"][int(top.a[1])]["fields"][int(re.sub(r"\D", "", str(inner.a[1])) or 0)][1]
        va = prog.adts[adt]["variants"][int(v)]
        return "%s.%s" % (va["name"], va["fields"][int(str(t.a[1]).rsplit(".", 1)[-1])][0]) if str(t.a[1]).rsplit(".", 1)[-1].isdigit() else "%s.%s" % (va["name"], str(t.a[1]).rsplit(".", 1)[-1])
    except (KeyError, IndexError, ValueError):
        return None


def resolve(I, st, v):
    return I.simp(I.dv(st, v))


def opts(I, t, through=True):
    """the subcommand fields a value is made of"""
    return {c for c in (cmd(y) for y in (closure(I, t) if through else subterms(t))) if c}


def closure(I, t):
    """all terms a value is made of, merges taken apart and references followed"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op == "phi":
                for (p, _), v in I.phi_in.get(y, {}).items():
                    todo.append(v)
                    todo += [resolve(I, I.at_term(p), z) for z in subterms(v) if z.op == "ref"]
    return seen


def leaves(I, t, facts=frozenset(), depth=0, seen=()):
    """(value, facts) of every way the value is chosen"""
    t = I.simp(t)
    u = t
    while u.op in ("cast", "&", "*", "der"):
        u = u.a[1] if u.op == "cast" else u.a[0]
    heads = getattr(I, "heads", ())
    if u.op == "phi" and u in I.phi_in and depth < 12 and u not in seen and u.a[0] not in heads:
        out = []
        for (p, _), v in I.phi_in[u].items():
            out += leaves(I, v, facts | frozenset(I.at_term(p).facts), depth + 1, seen + (u,))
        return out
    return [(u, facts)]


def eq_facts(facts):
    for c, pol in facts:
        while c.op == "not":
            c, pol = c.a[0], not pol
        if c.op == "eq":
            for x, y in (c.a, c.a[::-1]):
                if is_c(x):
                    yield x.a[0], y, pol
        else:
            yield 1, c, pol


def overrides(I, z, o):
    """in a merge of an option and its default, the default is taken only if the option is not given"""
    if z.op == "f" and z.a[0].op == "dc":
        z = z.a[0].a[0]
    for v, f in leaves(I, z):
        if o not in opts(I, v) and given(I, f, o)[0] is not False:
            return False
    return True


def given(I, facts, o):
    """(is the option given?, its value if known) according to the facts"""
    some, val = None, None
    no = set()
    for k, y, pol in eq_facts(facts):
        if y.op == "discr":
            z = y.a[0]
            while z.op in ("&", "*", "der"):
                z = z.a[0]
            if cmd(z) == o:
                some = (k == 1) == pol
            elif z.op == "f" and z.a[0].op == "dc" and cmd(z.a[0].a[0]) == o and pol:
                val = k
        elif y.op == "f" and y.a[0].op == "dc" and cmd(y.a[0].a[0]) == o and pol:
            val = k
    if some is None and val is None:
        # decided on a merge of the option and its default
        m = None
        for k, y, pol in eq_facts(facts):
            z = y.a[0] if y.op == "discr" else y
            while z.op in ("&", "*", "der"):
                z = z.a[0]
            if pol and o in opts(I, z) and not cmd(z):
                if not overrides(I, z, o):
                    return None, None
                if z.op == "f" and z.a[0].op == "dc":
                    return "merged", k
                m = "merged"
        return m, None
    return (True if val is not None else some), val


def chain_of(I, t, depth=0, seen=()):
    """setter calls on the way to a builder value: {setter: [(site term)]} present on every path"""
    t = I.simp(t)
    while t.op in ("&", "*", "der") or t.op == "f" and t.a[0].op == "dc":
        t = t.a[0].a[0] if t.op == "f" else t.a[0]
    if depth > 60:
        return {}
    if t.op in ("call", "pure"):
        fn, args = fn_of(t), args_of(t)
        if not args:
            return {}
        d = chain_of(I, args[0], depth + 1, seen)
        if d is None:
            return None
        d = dict(d)
        n = fn.rsplit("::", 1)[-1]
        d[n] = [t] if n not in ("add_file", "add_file_with_options") else d.get(n, []) + [t]
        return d
    if is_err(t):
        return None
    if t.op == "agg" and t.a[3]:
        return chain_of(I, t.a[3][0], depth + 1, seen)
    if t.op == "phi":
        if t in seen:
            return None
        ds = [x for x in (chain_of(I, v, depth + 1, seen + (t,)) for v in I.phi_in.get(t, {}).values()) if x is not None]
        if not ds:
            return None
        keys = set(ds[0])
        for x in ds[1:]:
            keys &= set(x)
        return {k: [y for x in ds for y in x[k]] for k in keys}
    return {}


class Walk(Rounds):
    """every entry walked is added unless excused"""
    def __init__(self, g, I, nxt, adds, excuse):
        self.excuse = excuse
        super().__init__(g, I, nxt, adds)

    def relevant(self, c):
        return self.excuse(c, True) or self.excuse(c, False)

    def on_edge(self, env, ust, node, lab, w):
        r = super().on_edge(env, ust, node, lab, w)
        if r == "STOP" or r[2] != 0:
            return r
        nf = (self.facts_on(node.id, lab) or frozenset()) | self.chosen(ust[0], node.id, lab)
        if any(self.excuse(c, p) for c, p in nf):
            return (r[0], r[1], "excused")
        return r

    def on_return(self, env, ust, node, rv):
        if rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR:
            return
        if ust[2] in (0, 1, "excused"):
            self.bad.setdefault("partial", self.cur)


def norm(c, pol):
    while c.op == "not":
        c, pol = c.a[0], not pol
    if c.op == "eq":
        for x, y in (c.a, c.a[::-1]):
            if is_c(x) and x.a[0] in (0, 1) and y.op != "discr":
                return (y, pol if x.a[0] == 1 else not pol)
    return c, pol


def collected(ctx, I, g):
    """names gathered in a loop of their own: each one, unless the pattern does not match"""
    where = set()
    for s in I.sites():
        if gathers(I, s) and facts_cmd(I, s) in ("List", "Find", "Extract"):
            where.add(g.nodes[s.node].frame.path)
    for w in where:
        ctx.count("gathering_functions")
        rounds(ctx, ctx.prog, w, gathers, unmatched, "gather", ("a listed file can be dropped", "the names can be gathered in part only"), twice=False,
               skip=re.compile(r"^std::fs::|_print$|_eprint$|Archive::read_file|::write_fmt$"))


def gathers(I, s):
    if not re.search(r"Vec::<T, A>::push$", s.fn):
        return False
    v = I.simp(I.dv(s.st, s.vals[1]))
    p = peel(v)
    return any(x.op == "next" for x in subterms(v)) and (p.op == "next" or p.op == "f" and str(p.a[1]) == "FileEntry.name") and any(re.search(r"Archive::list\w*$", fn_of(x)) for x in closure(I, v)) 


def unmatched(I, c, pol):
    return c.op in ("call", "pure") and not pol and re.search(r"::(is_match|matches|matches_path|matches_with|contains)$", fn_of(c)) is not None and any(x.op == "next" for x in subterms(c))


def rounds(ctx, prog, where, is_add, excuse, label, say, twice=True, skip=None):
    """in the function `where` (its helpers inlined) every round of the loop around the adding call adds, unless excused"""
    g = Graph(prog, where, inline=lambda q, fr: q.startswith("storm_cli::"))
    I = Interp(g)
    adds = {s.node for s in I.sites() if is_add(I, s)}
    loops = {}
    for n in adds:
        nxt, body = sectors.loop_at(I, g, n)
        if nxt is None:
            ctx.count("loops_undecided")
            continue
        if skip and any(t.node in body and skip.search(t.fn) for t in I.sites()):
            continue
        loops.setdefault(nxt.node, (nxt, set()))[1].add(n)
    for nid, (nxt, ad) in loops.items():
        ctx.count("loops")
        if any(x.op == "slice" or x.op in ("call", "pure") and re.search(r"::(take|skip|step_by|take_while|skip_while)$", fn_of(x)) for x in closure(I, I.simp(I.dv(nxt.st, nxt.vals[0])))):
            ctx.violation("%s:part" % label, "%s runs over a part of the entries only" % where, g.span(nid))
        r = Walk(g, I, nid, ad, lambda c, p: excuse(I, *norm(c, p)))
        r.start("before")
        if r.exceeded:
            ctx.count("loops_undecided")
            continue
        for k, cur in r.bad.items():
            if k == "skipped" or k == "partial":
                ctx.violation("%s:%s" % (label, k), "%s: %s" % (where, say[0] if k == "skipped" else say[1]), g.span(nid), r.trail(cur))
            elif k == "twice" and twice:
                ctx.violation("%s:%s" % (label, k), "%s: an entry is handled twice" % where, g.span(nid), r.trail(cur))
    return len(loops)


def want_version(k, v):
    return v.op == "agg" and str(v.a[1]).endswith("FormatVersion") and v.a[2] == k - 1


def elsewhere(I, facts, o):
    """is the choice made by something that is not the option, such as the configuration?"""
    return any(any(z.op == "f" and str(z.a[1]).startswith("Config.") for z in closure(I, y)) and o not in opts(I, y) for k, y, pol in eq_facts(facts))


def option(ctx, I, g, site, what, o, val, ok, name, domain):
    """on every path the value used is the one the option asks for, when it is given"""
    here = frozenset(I.at_term(site.node).facts)
    ls = [(v, facts) + given(I, facts | here, o) for v, facts in leaves(I, val)]
    handled = {k for v, f, is_given, k in ls if k is not None}
    for v, facts, is_given, k in ls:
        ctx.count("option_values")
        if is_given is False:
            continue
        if k is not None:
            if ok(k, v) is False:
                ctx.violation("option:%s" % what, "with --%s given as %s the builder gets %s" % (name, k, show(v)[:60]), g.span(site.node))
        elif o in opts(I, v):
            ctx.count("option_values_passed")
            if v.op in ("and", "or", "xor", "lin", "shl", "shr"):
                ctx.violation("option:%s" % what, "the builder gets %s; expected what --%s says" % (show(v)[:60], name), g.span(site.node))
        elif v.op in ("and", "or", "xor", "lin", "shl", "shr"):
            ctx.violation("option:%s" % what, "the builder gets %s; expected what --%s says" % (show(v)[:60], name), g.span(site.node))
        elif is_c(v) or v.op == "agg":
            if any(ok(d, v) is False and d not in handled for d in domain) or is_given is None and elsewhere(I, facts, o):
                ctx.violation("option:%s" % what, "the builder gets %s whatever --%s says" % (show(v)[:60], name), g.span(site.node))


def block(ctx, I, g, site, v):
    o = "Create.block_size"
    for x, facts in leaves(I, v):
        ctx.count("option_values")
        ys = [(x, facts)]
        if x.op == "f" and x.a[0].op == "dc" and not cmd(x.a[0].a[0]):
            ys = leaves(I, x.a[0].a[0])
        for y, f in ys:
            if y.op == "lin" and o in opts(I, y):
                ctx.violation("option:block_size", "the builder gets %s as sector size" % show(y)[:60], g.span(site.node))
            if o in opts(I, y):
                continue
            gv, k = given(I, f, o)
            if gv is not True and given(I, facts, o)[0] is False:
                gv = False
            if gv is True or gv is None:
                ctx.violation("option:block_size", "the builder can get %s though --block-size is given" % show(y)[:60], g.span(site.node))
    if o not in opts(I, v):
        ctx.violation("option:block_size", "the sector size does not come from --block-size", g.span(site.node))


def create(ctx, I, g):
    prog = ctx.prog
    variants = [v["name"] for v in prog.adts["storm_cli::CompressionMethod"]["variants"]]
    builds = [s for s in I.sites() if s.fn == B + "build"]
    ctx.count("builds", len(builds))
    if not builds:
        ctx.violation("create:none", "no command builds an archive", None)
    sites = {s.node: s for s in I.sites()}
    for s in builds:
        p = peel(I.simp(I.dv(s.st, s.vals[1])))
        if cmd(p) != "Create.archive":
            ctx.violation("create:path", "the archive is built at %s; expected the path given" % show(p)[:80], g.span(s.node))
        d = chain_of(I, I.dv(s.st, s.vals[0]))
        if d is None:
            ctx.count("builders_undecided")
            continue
        for setter in ("version", "default_compression", "block_size", "listfile_option"):
            ctx.count("options")
            if setter not in d:
                ctx.violation("option:" + setter, "the archive can be built without %s being set" % setter, g.span(s.node))
                continue
            for t in d[setter]:
                site = sites.get(t.a[1]) if t.op == "call" else None
                if site is None:
                    continue
                v = args_of(t)[1]
                if setter == "version":
                    option(ctx, I, g, site, "version", "Create.version", v, lambda k, x: want_version(k, x) if x.op == "agg" else None, "version", (1, 2, 3, 4))
                elif setter == "default_compression":
                    option(ctx, I, g, site, "compression", "Create.compression", v, lambda k, x: (x.a[0] == COMP.get(variants[k]) if k < len(variants) else None) if is_c(x) else None, "compression", range(len(variants)))
                elif setter == "block_size":
                    block(ctx, I, g, site, v)
                else:
                    listfile(ctx, I, g, site, v)
        if not all(any(re.match(re.escape(B) + r"add_file", fn_of(x)) for x in closure(I, v)) for v, _ in leaves(I, I.dv(s.st, s.vals[0])) if not is_err(v)):
            ctx.violation("create:nothing", "an archive can be built without the source having been added", g.span(s.node))
    walks = {}
    for s in I.sites():
        if not re.match(re.escape(B) + r"add_file(_with_options)?$", s.fn):
            continue
        ctx.count("adds")
        path, name = [I.simp(I.dv(s.st, v)) for v in s.vals[1:3]]
        pp = peel(path)
        nx = [x for x in subterms(path) if x.op == "next"]
        fs = closure(I, name)
        if nx:
            ent = nx[-1]
            if not any(fn_of(x).endswith("DirEntry::path") or fn_of(x).endswith("::into_path") for x in subterms(path)) or changed(path):
                ctx.violation("add:path", "%s reads %s; expected the entry walked" % (g.nodes[s.node].frame.path, show(path)[:80]), g.span(s.node))
            nn = [x for x in fs if x.op == "next"]
            if not any(x is nx[0] for x in nn):
                ctx.violation("add:name", "an entry is added under %s; expected its own path below the source" % show(name)[:80], g.span(s.node))
            elif not any(fn_of(x).endswith("::strip_prefix") for x in fs):
                ctx.violation("add:name", "an entry is added under %s; expected its path relative to the source" % show(name)[:80], g.span(s.node))
            else:
                for x in fs:
                    if fn_of(x).endswith("::strip_prefix") and "Create.source" not in opts(I, args_of(x)[1]):
                        ctx.violation("add:name", "an entry is added under its path below %s" % show(args_of(x)[1])[:80], g.span(s.node))
                for b in name_changed(I, name):
                    ctx.violation("add:name", "the relative path of an entry is changed by %s before it is added" % b, g.span(s.node))
            walks[g.nodes[s.node].frame.path] = s
        elif cmd(pp) == "Create.source":
            if changed(path) or not any(fn_of(x).endswith("Path::file_name") for x in fs):
                ctx.violation("add:name", "the file given is added under %s; expected its file name" % show(name)[:80], g.span(s.node))
            elif "Create.source" not in opts(I, name):
                ctx.violation("add:name", "the file given is added under %s" % show(name)[:80], g.span(s.node))
        else:
            ctx.violation("add:path", "%s is added; expected the source given" % show(path)[:80], g.span(s.node))
    walker(ctx, I, g)
    for where in walks:
        n = rounds(ctx, prog, where, lambda I, s: re.match(re.escape(B) + r"add_file(_with_options)?$", s.fn), ignorable, "walk",
                   ("a file below the source can be left out of the archive", "the walk can end before the last file"))
        ctx.count("walks", n)


def ignorable(I, c, pol):
    """directories and what an ignore pattern names are not added"""
    if c.op not in ("call", "pure"):
        return False
    fn = fn_of(c)
    if re.search(r"::is_dir$", fn) and pol or re.search(r"Path::is_file$", fn) and not pol:
        return any(x.op == "next" for x in subterms(c))
    if re.search(r"::any$", fn) and pol:
        return any("ignore_patterns" in str(x.a[1]) for x in closure(I, c) if x.op == "f" and len(x.a) > 1) or any(x.op == "param" for x in closure(I, args_of(c)[0])) and "closure" in show(c)
    if re.search(r"::all$", fn) and not pol:
        return any("ignore_patterns" in str(x.a[1]) for x in closure(I, c) if x.op == "f" and len(x.a) > 1)
    if re.search(r"::contains$", fn) and pol and len(args_of(c)) > 1:
        return any("ignore_patterns" in str(x.a[1]) for x in closure(I, args_of(c)[1]) if x.op == "f" and len(x.a) > 1)
    return False


def changed(t):
    return any(x.op in ("slice", "push", "ext", "lin") for x in subterms(t)) or any(re.search(r"::(with_extension|with_file_name|parent|join|push|set_extension|set_file_name|canonicalize|trim\w*|to_lowercase|to_uppercase|to_ascii\w*)$", fn_of(x)) for x in subterms(t) if x.op in ("call", "pure"))


def name_changed(I, t):
    out = set()
    for x in closure(I, t):
        if x.op in ("call", "pure"):
            n = fn_of(x).rsplit("::", 1)[-1]
            if re.match(r"(file_name|file_stem|with_extension|parent|to_lowercase|to_uppercase|to_ascii\w*|trim\w*|split\w*|rsplit\w*|truncate|skip|nth|last|pop)$", n) and any(y.op == "next" for y in subterms(x)):
                out.add(n)
            if n in ("replace", "replacen") and len(args_of(x)) > 2:
                a, b = [bare(I.simp(y)) for y in args_of(x)[1:3]]
                sl = {47, 92, "/", "\\"}
                if not (a.op in ("c", "s") and a.a[0] in sl and b.op in ("c", "s") and b.a[0] in sl) and a.op in ("c", "s") and b.op in ("c", "s"):
                    out.add(n)
        elif x.op == "slice":
            out.add("a slice")
    return sorted(out)


def listfile(ctx, I, g, site, v):
    adt = "mopaq::builder::ListfileOption"
    vn = [x["name"] for x in ctx.prog.adts[adt]["variants"]]
    for x, facts in leaves(I, v):
        ctx.count("option_values")
        if x.op != "agg" or str(x.a[1]) != adt:
            if not is_c(x):
                ctx.count("option_values_undecided")
            continue
        kind = vn[x.a[2]]
        no = None
        ext = None
        for k, y, pol in eq_facts(facts):
            if cmd(y) == "Create.no_listfile":
                no = (k == 1) == pol
            if y.op == "discr" and cmd(y.a[0]) == "Create.listfile":
                ext = (k == 1) == pol
        if kind == "None" and no is False or kind == "None" and no is None and ext is not None:
            ctx.violation("option:listfile", "the listfile is left out though --no-listfile is not given", g.span(site.node))
        if kind == "Generate" and (no is True or ext is True):
            ctx.violation("option:listfile", "a listfile is generated though %s is given" % ("--no-listfile" if no else "--listfile"), g.span(site.node))
        elif kind == "Generate" and no is None:
            ctx.violation("option:listfile", "a listfile can be generated though --no-listfile is given", g.span(site.node))
        if kind == "External" and ("Create.listfile" not in opts(I, x) or changed(x)):
            ctx.violation("option:listfile", "the external listfile is %s; expected the file given" % show(x)[:80], g.span(site.node))


def walker(ctx, I, g):
    for s in I.sites():
        if not (re.search(r"::next$", s.fn) and "walkdir" in s.fn):
            continue
        ctx.count("directory_walks")
        chain = I.simp(I.dv(s.st, s.vals[0]))
        for t, facts in leaves(I, chain):
            facts = facts | frozenset(I.at_term(s.node).facts)
            calls = [x for x in subterms(t) if x.op in ("call", "pure") and fn_of(x)]
            rec = None
            for k, y, pol in eq_facts(facts):
                if "Create.no_recursive" in opts(I, y, False) and y.op != "discr":
                    z, pp = norm(y, (k == 1) == pol)
                    rec = not pp
            seen = set()
            for x in calls:
                n = fn_of(x).rsplit("::", 1)[-1]
                seen.add(n)
                if n == "max_depth":
                    d = bare(I.simp(args_of(x)[1]))
                    dl = leaves(I, d)
                    for dv, df in dl:
                        r2 = rec
                        for k, y, pol in eq_facts(df):
                            if "Create.no_recursive" in opts(I, y, False) and y.op != "discr":
                                z, pp = norm(y, (k == 1) == pol)
                                r2 = not pp
                        if is_c(dv) and dv.a[0] < 1 << 31 and r2 is not False:
                            ctx.violation("walk:depth", "the directory walk stops at depth %s though recursion is not switched off" % dv.a[0], g.span(s.node))
                        if is_c(dv) and dv.a[0] == 0:
                            ctx.violation("walk:depth", "the directory walk enters nothing", g.span(s.node))
                elif n == "min_depth":
                    d = bare(I.simp(args_of(x)[1]))
                    if is_c(d) and d.a[0] > 1:
                        ctx.violation("walk:depth", "the directory walk leaves out everything above depth %s" % d.a[0], g.span(s.node))
                elif n == "follow_links":
                    if "Create.follow_symlinks" not in opts(I, args_of(x)[1]) or norm(args_of(x)[1], True)[1] is False:
                        ctx.violation("walk:links", "links are followed by %s; expected as asked" % show(args_of(x)[1])[:60], g.span(s.node))
                elif n in ("same_file_system",) or CUT.search("::" + n):
                    ctx.violation("walk:cut", "the directory walk is cut down by %s" % n, g.span(s.node))
                elif n == "new" and "WalkDir" in fn_of(x):
                    if cmd(peel(args_of(x)[0])) != "Create.source":
                        ctx.violation("walk:root", "the walk starts at %s; expected the source given" % show(args_of(x)[0])[:80], g.span(s.node))
            if rec is False and "max_depth" not in seen:
                ctx.violation("walk:depth", "the directory walk is not limited though --no-recursive is given", g.span(s.node))
            if "follow_links" not in seen:
                ctx.violation("walk:links", "links are not followed whatever --follow-symlinks says", g.span(s.node))


def opened(ctx, I, g):
    """each command opens the archive it is given"""
    for s in I.sites():
        if re.match(re.escape(A) + r"open(_with_options)?$", s.fn):
            p = peel(I.simp(I.dv(s.st, s.vals[0])))
            ctx.count("opens")
            c = cmd(p)
            if p.op == "phi":
                cs = {cmd(peel(x)) for x, _ in leaves(I, p)}
                c = cs.pop() if len(cs) == 1 else None
            if c is None or not c.endswith(".archive"):
                ctx.violation("open:%s" % g.nodes[s.node].frame.path, "%s opens %s; expected the archive given" % (g.nodes[s.node].frame.path, show(p)[:80]), g.span(s.node))


def content_of(I, t):
    """read_file calls a written content comes from, or None when it is changed"""
    t = I.simp(t)
    out = []
    for v, _ in leaves(I, t):
        p = peel(v)
        if p.op == "phi":
            r = content_of(I, p) if p is not t else []
            out += r or []
            continue
        if p.op in ("call", "pure") and re.search(r"Archive::read_file\w*$", fn_of(p)):
            out.append(p)
        elif is_err(v):
            continue
        else:
            return None
    return out


def is_err(v):
    return v.op == "agg" and str(v.a[1]).endswith("::Result") and v.a[2] == 1


def extract(ctx, I, g):
    prog = ctx.prog
    loops = set()
    n = 0
    for s in I.sites():
        if not re.search(r"^std::fs::write$|^std::io::Write::write_all$|::write_all$", s.fn):
            continue
        f = facts_cmd(I, s)
        if f != "Extract":
            continue
        n += 1
        path, data = [I.simp(I.dv(s.st, v)) for v in s.vals[:2]]
        reads = content_of(I, data)
        if reads is None:
            ctx.violation("extract:content", "%s is written; expected the content read, unchanged" % show(data)[:80], g.span(s.node))
            continue
        if not reads:
            ctx.count("writes_undecided")
        pc = closure(I, path)
        for r in reads:
            ctx.count("contents_written")
            nm = peel(I.simp(args_of(r)[1]))
            key = [x for x in subterms(args_of(r)[1]) if x.op == "next"]
            if key:
                if not any(x is key[0] for x in pc):
                    ctx.violation("extract:path", "the content of %s is written to %s" % (show(nm)[:60], show(path)[:80]), g.span(s.node))
                loops.add(g.nodes[s.node].frame.path)
                chain = key[0]
                cut = [fn_of(x) for x in subterms(chain) if x.op in ("call", "pure") and CUT.search(fn_of(x))]
                if not any(re.search(r"Archive::list\w*$", fn_of(x)) for x in closure(I, chain)):
                    ctx.violation("extract:names", "extraction runs over %s; expected the archive's list" % show(chain)[:80], g.span(s.node))
                if cut:
                    ctx.violation("extract:names", "extraction leaves out listed files (%s)" % cut[0], g.span(s.node))
                if changed(args_of(r)[1]):
                    ctx.violation("extract:name", "%s is read; expected the listed name" % show(args_of(r)[1])[:80], g.span(s.node))
            else:
                if cmd(nm) != "Extract.file" or changed(args_of(r)[1]):
                    ctx.violation("extract:name", "%s is read; expected the name given" % show(args_of(r)[1])[:80], g.span(s.node))
        for x in pc:
            if x.op in ("call", "pure") and re.search(r"::(to_lowercase|to_uppercase|to_ascii_\w+|trim\w*|with_extension|set_extension|file_stem|truncate)$", fn_of(x)) and any(y.op == "next" or cmd(y) == "Extract.file" for y in subterms(x)):
                ctx.violation("extract:path", "the name is changed by %s before the file is written under it" % fn_of(x), g.span(s.node))
            if x.op in ("call", "pure") and re.search(r"Option::<T>::(filter|xor|and)$", fn_of(x)) and "Extract.target_directory" in opts(I, args_of(x)[0]):
                ctx.violation("extract:target", "the directory given is used only under a condition (%s)" % fn_of(x), g.span(s.node))
        o = opts(I, path)
        if "Extract.target_directory" not in o:
            ctx.violation("extract:target", "a file is written to %s whatever --output says" % show(path)[:80], g.span(s.node))
    ctx.count("extract_writes", n)
    if n < 1:
        ctx.violation("extract:none", "extraction writes no file", None)
    for s in I.sites():
        if s.fn in ("std::path::Path::components", "std::path::Path::file_name") and facts_cmd(I, s) == "Extract":
            v = I.simp(I.dv(s.st, s.vals[0]))
            if not any(x.op == "next" or cmd(x) == "Extract.file" for x in subterms(v)):
                continue
            flag, mixed = flag_of(I, s, "Extract.preserve_path")
            want = s.fn.endswith("components")
            ctx.count("path_choices")
            if mixed or flag is not None and flag != want:
                ctx.violation("extract:preserve", "%s of the name is used %s" % ("the whole path" if want else "only the last part", "under a condition besides --preserve-path" if mixed else "with --preserve-path" if flag else "without --preserve-path"), g.span(s.node))
    for where in loops:
        rounds(ctx, prog, where, lambda I, s: s.fn == "std::fs::write" or s.fn.endswith("::write_all"), failed, "extract",
               ("a listed file can be left out without an error", "extraction can end before the last file"), twice=False)


def failed(I, c, pol):
    """reading the entry failed"""
    if c.op == "eq":
        for x, y in (c.a, c.a[::-1]):
            if is_c(x) and y.op == "discr" and any(re.search(r"Archive::read_file\w*$", fn_of(z)) for z in closure(I, y)):
                return (x.a[0] == 1) == pol
    return False


def flag_of(I, s, o):
    """(value of a flag at a call, decided by a mix of the flag and something else)"""
    val, mixed = None, False
    for k, y, pol in eq_facts(I.instate[s.node].facts):
        if y.op == "discr":
            continue
        z, pp = norm(y, (k == 1) == pol)
        if cmd(peel(z)) == o:
            val = pp
        elif z.op == "phi":
            ls = [(v, [(k2 == 1) == p2 for k2, y2, p2 in eq_facts(f) if cmd(peel(y2)) == o]) for v, f in leaves(I, z)]
            if o in opts(I, z) or any(f for v, f in ls):
                if all(cmd(peel(v)) == o or is_c(v) and f and bool(v.a[0]) == f[0] for v, f in ls):
                    val = pp
                else:
                    mixed = True
    return val, mixed and val is None


def facts_cmd(I, s):
    """which subcommand a call belongs to"""
    prog = Cmds.prog
    top = None
    for k, y, pol in eq_facts(I.instate[s.node].facts):
        if y.op == "discr" and pol:
            z = y.a[0]
            while z.op in ("&", "*", "der"):
                z = z.a[0]
            if z.op == "f" and z.a[0].op == "dc" and "Cli.command" in deep(z):
                b = z.a[0].a[0]
                while b.op in ("&", "*", "der"):
                    b = b.a[0]
                if b.op == "f" and str(b.a[1]) == "Cli.command":
                    try:
                        adt = prog.adts["storm_cli::Commands"]["variants"][int(z.a[0].a[1])]["fields"][0][1]
                        top = prog.adts[adt]["variants"][k]["name"]
                    except (KeyError, IndexError):
                        pass
    return top


def returns_of(prog, c):
    g = Graph(prog, c, inline=lambda q, fr: q.startswith("storm_cli::"))
    I = Interp(g)
    out = []
    for n in g.returns:
        out.append((I, I.simp(I.read(I.at_term(n), (("L", g.root.id, 0), ())))))
    return out


def matches_name(ctx, c):
    """a filter closure keeps exactly what the pattern matches"""
    for I, t in returns_of(ctx.prog, c):
        for v, _ in leaves(I, t):
            v, pol = norm(v, True)
            fn = fn_of(v)
            if v.op in ("call", "pure") and (not fn or "::" not in fn or re.search(r"::call(_mut|_once)?$", fn)):
                continue      # a predicate chosen elsewhere
            if not re.search(r"::(is_match|matches|matches_path|matches_with|is_match_at|contains|find_iter)$", fn) or not pol:
                return "%s%s" % ("" if pol else "not ", show(v)[:60])
    return None


def listing(ctx, I, g):
    prog = ctx.prog
    for s in I.sites():
        m = re.match(re.escape(A) + r"(list\w*)$", s.fn)
        if not m:
            continue
        f = facts_cmd(I, s)
        if f != "List":
            continue
        ctx.count("list_calls")
        st = {}
        for k, y, pol in eq_facts(I.instate[s.node].facts):
            for y2, _ in leaves(I, y):
                c = cmd(peel(y2))
                if c in ("List.all", "List.show_hashes"):
                    z, pp = norm(y, (k == 1) == pol)
                    st[c] = pp
        if "List.all" in st and st["List.all"] != ("_all" in m.group(1)):
            ctx.violation("list:all", "%s is called %s --all" % (s.fn, "with" if st["List.all"] else "without"), g.span(s.node))
        if "List.show_hashes" in st and st["List.show_hashes"] and "with_hashes" not in m.group(1):
            ctx.violation("list:hashes", "%s is called with --show-hashes" % s.fn, g.span(s.node))
    for s in I.sites():
        n = s.fn.rsplit("::", 1)[-1]
        f = facts_cmd(I, s)
        if f not in ("List", "Find"):
            continue
        if not s.vals:
            continue
        if not CUT.search("::" + n):
            continue
        v = I.simp(I.dv(s.st, s.vals[0]))
        if not any(re.search(r"Archive::list\w*$", fn_of(x)) for x in closure(I, v)):
            continue
        if re.search(r"^(pop|remove|clear)$", n) and not re.search(r"Vec", s.fn):
            continue
        ctx.count("filters")
        if n in ("retain", "retain_mut", "filter"):
            c = closure_of(I.simp(I.dv(s.st, s.vals[1]))) if len(s.vals) > 1 else None
            if c is None or c not in prog.fns:
                ctx.count("filters_undecided")
                continue
            if "statistics" in c:
                continue
            if only_counts(I, s):
                continue
            bad = matches_name(ctx, c)
            if bad:
                ctx.violation("list:filter", "%s keeps an entry if %s; expected if it matches the pattern" % (g.nodes[s.node].frame.path, bad), g.span(s.node))
            if f == "List":
                has = None
                for k, y, pol in eq_facts(I.instate[s.node].facts):
                    if y.op == "discr" and any(cmd(z) == "List.pattern" for z in closure(I, y)) and option_like(I, y.a[0]):
                        has = (k == 1) == pol
                if has is not True:
                    ctx.violation("list:filter", "%s filters the list also when no pattern is given" % g.nodes[s.node].frame.path, g.span(s.node))
        else:
            ctx.violation("list:cut", "%s takes entries out of the list (%s)" % (g.nodes[s.node].frame.path, n), g.span(s.node))
    printed(ctx, I, g)
    for s in I.sites():
        f = facts_cmd(I, s)
        if f not in ("List", "Find"):
            continue
        if re.search(r"^serde_json::.*to_(string|writer|vec)\w*$", s.fn):
            v = I.simp(I.dv(s.st, s.vals[-1]))
            ctx.count("serialised")
            if any(x.op == "slice" for x in closure(I, v)):
                ctx.violation("list:cut", "%s prints a part of the entries only" % g.nodes[s.node].frame.path, g.span(s.node))
        m = re.search(r"(regex::.*Regex|glob::Pattern)::new$", s.fn)
        if m and g.nodes[s.node].frame.fn.get("parent") is None:
            v = I.simp(I.dv(s.st, s.vals[0]))
            is_re = "Regex" in s.fn
            if not any(x.endswith(".pattern") for x in opts(I, v)):
                continue
            ctx.count("patterns")
            flag, mixed = flag_of(I, s, f + ".regex")
            if mixed or flag is not None and flag != is_re:
                ctx.violation("find:regex", "%s reads the pattern as a %s %s" % (g.nodes[s.node].frame.path, "regular expression" if is_re else "glob", "under a condition besides --regex" if mixed else "with --regex" if flag else "without --regex"), g.span(s.node))
            elif flag is None and is_re:
                ctx.violation("find:regex", "%s can read the pattern as a regular expression without --regex" % g.nodes[s.node].frame.path, g.span(s.node))
            if f == "Find":
                fold = any(fn_of(x).endswith("to_lowercase") for x in closure(I, v) if x.op in ("call", "pure")) or "40,63,105,41" in "".join(show(x) for x in closure(I, v) if x.op == "bytes") or "(?i)" in show(v)
                ic, mixed = flag_of(I, s, "Find.ignore_case")
                if ic is not None and ic != fold:
                    ctx.violation("find:case", "%s %s case %s --ignore-case" % (g.nodes[s.node].frame.path, "ignores" if fold else "minds", "with" if ic else "without"), g.span(s.node))


def named(ctx, I, g):
    """a file named on the command line is looked up under that name; what a name contains is judged under the whole pattern"""
    for s in I.sites():
        if re.match(re.escape(A) + r"(read_file\w*|find_file)$", s.fn):
            v = I.simp(I.dv(s.st, s.vals[1]))
            os = {x for x in (cmd(y) for y in subterms(v)) if x and not x.endswith(".archive")}
            if os and not any(y.op == "next" for y in subterms(v)):
                ctx.count("names_given")
                if cmd(peel(v)) is None or not cmd(peel(v)).endswith(".file"):
                    ctx.violation("name:%s" % sorted(os)[0], "%s is looked up; expected the name given" % show(v)[:80], g.span(s.node))
        if s.fn.endswith("str>::contains") and facts_cmd(I, s) == "Create":
            a = [closure(I, I.simp(I.dv(s.st, v))) for v in s.vals[:2]]
            pat = [any(x.op == "f" and "ignore_patterns" in str(x.a[1]) or cmd(x) == "Create.ignore_patterns" for x in y) for y in a]
            if pat[0] and not pat[1]:
                ctx.violation("walk:ignore", "a pattern is searched for the path instead of the path for the pattern", g.span(s.node))


def hashes(ctx, I, g):
    prog = ctx.prog
    want = {"TableOffset": 0, "NameA": 1, "NameB": 2, "FileKey": 3, "Key2Mix": 4}
    vs = [v["name"] for v in prog.adts.get("storm_cli::HashType", {"variants": []})["variants"]]
    plain = []
    for s in I.sites():
        if not s.fn.endswith("::hash_string") or facts_cmd(I, s) != "Generate":
            continue
        ctx.count("hashes")
        name, ty = [I.simp(I.dv(s.st, v)) for v in s.vals[:2]]
        if cmd(peel(name)) != "Generate.filename":
            ctx.violation("hash:name", "%s is hashed; expected the name given" % show(name)[:60], g.span(s.node))
        if is_c(ty):
            gv, k = given(I, I.instate[s.node].facts, "Generate.hash_type")
            if k is None:
                plain.append(ty.a[0])
            elif k < len(vs) and ty.a[0] != want.get(vs[k], ty.a[0]):
                ctx.violation("hash:type", "hash type %s is computed when %s is asked for" % (ty.a[0], vs[k]), g.span(s.node))
            continue
        for v, facts in leaves(I, ty):
            gv, k = given(I, facts, "Generate.hash_type")
            if k is not None and k < len(vs) and is_c(v) and v.a[0] != want.get(vs[k], v.a[0]):
                ctx.violation("hash:type", "hash type %s is computed when %s is asked for" % (v.a[0], vs[k]), g.span(s.node))
    if plain and len(set(plain)) < len(plain):
        ctx.violation("hash:all", "the hashes shown together are of types %s; expected each type once" % sorted(plain), None)


def option_like(I, t):
    t = bare(t)
    return bool(cmd(t)) or any(bool(cmd(peel(v))) and v.op != "call" or v.op == "agg" and str(v.a[1]).endswith("::Option") for v, _ in leaves(I, t))


def only_counts(I, s):
    """a filter whose result is only counted or summed"""
    c = closure_of(I.simp(I.dv(s.st, s.vals[1])))
    users = []
    for o in I.sites():
        if o.node == s.node:
            continue
        for v in o.vals:
            t = I.simp(I.dv(o.st, v))
            if any(x.op in ("call", "pure") and fn_of(x) == s.fn and len(args_of(x)) > 1 and closure_of(args_of(x)[1]) == c for x in subterms(t)):
                users.append(o.fn)
    return bool(users) and re.search(r"::(count|sum|any|all|max|min|fold)$", users[0]) is not None and not any(re.search(r"::(collect|next|into_iter)$", u) for u in users)


def printed(ctx, I, g):
    """the loops that print the names print each one"""
    where = {}
    for s in I.sites():
        if s.fn != "std::io::stdio::_print" or facts_cmd(I, s) not in ("List", "Find"):
            continue
        v = I.simp(I.dv(s.st, s.vals[0]))
        if shows_entry(I, s):
            where.setdefault(g.nodes[s.node].frame.path, s)
    for w, s in where.items():
        ctx.count("printing_functions")
        rounds(ctx, ctx.prog, w, lambda I, s: s.fn == "std::io::stdio::_print" and shows_entry(I, s), lambda I, c, p: False, "print",
               ("an entry can be left out of the output", "the output can end before the last entry"), twice=False)


def shows_entry(I, s):
    v = I.simp(I.dv(s.st, s.vals[0]))
    for x in closure(I, v):
        if x.op in ("call", "pure") and re.search(r"::new_display$", fn_of(x)):
            for y in closure(I, args_of(x)[0]):
                if y.op == "f" and str(y.a[1]) == "FileEntry.name" and any(z.op == "next" for z in subterms(y)):
                    return True
                if y.op == "f" and y.a[0].op == "dc" and y.a[0].a[0].op == "next" and peel(args_of(x)[0]) in (y, y.a[0].a[0]):
                    return True
    return False


def run(ctx):
    prog = ctx.prog
    Cmds.prog = prog
    if not ctx.need(MAIN):
        return
    g = Graph(prog, MAIN, inline=lambda q, fr: q.startswith("storm_cli::"))
    I = Interp(g)
    ctx.functions |= {fr.path for fr in g.frames}
    create(ctx, I, g)
    opened(ctx, I, g)
    extract(ctx, I, g)
    listing(ctx, I, g)
    named(ctx, I, g)
    collected(ctx, I, g)
    hashes(ctx, I, g)
