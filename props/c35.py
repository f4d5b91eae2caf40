import re
import sectors
from common import *
from filefmt import *
from ffi import exported, ffi_graph
from terms import T
from factesp import FactEsp, natural_loops
from c17 import bare, mk_arg
from c27 import fn_of, args_of, deep

RULE = ("Symbolic value-flow over the exported C functions. Every archive call gets the caller's own name, unchanged, and the archive stored under the caller's own handle; a file handle holds the content, size, name and archive "
        "of the file just looked up and starts at 0; extraction writes the content read to the path given; sizes, positions, names and info classes are read from that handle's own fields (branch facts decide the class and the seek "
        "origin); enumeration hands out the names listed, leaving out only what the mask excludes; an archive is created over an existing file only under the dispositions that say so (path-sensitive, on every path to the build).")

ARCH = re.compile(r"^mopaq::archive::Archive::(open|open_with_options|find_file|read_file)$")
COPY = r"::(to_str|from_ptr|as_str|to_string|to_owned|clone|into|from|as_ref|deref|borrow|as_path|new|to_string_lossy|into_owned|unwrap\w*|ok|branch|to_path_buf|into_boxed_str|as_deref|from_utf8|to_bytes|as_c_str)$"
ALTER = r"::(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+|make_ascii\w*|replace\w*|split\w*|rsplit\w*|strip_\w+|truncate|join|push\w*|chars|bytes|get|index|file_name|file_stem|with_extension|with_file_name|repeat|concat|insert\w*|pop|lines|rev|take|skip)$"
INFO = {1: "get_archive_size", 2: "MpqHeader.hash_table_size", 3: "MpqHeader.block_table_size", 4: "sector_size", 7: "FileHandle.size", 10: "FileHandle.position"}


def peel(t):
    while True:
        if t.op in ("&", "*", "der"):
            t = t.a[0]
        elif t.op == "cast":
            t = t.a[1]
        elif t.op == "f" and t.a[0].op == "dc":
            t = t.a[0].a[0]
        elif t.op in ("call", "pure") and re.search(COPY, "::" + fn_of(t).rsplit("::", 1)[-1]) and args_of(t):
            t = args_of(t)[0]
        else:
            return t


def params_in(t):
    return {x for x in subterms(t) if x.op == "param"}


def altered(t):
    return [fn_of(x) for x in subterms(t) if x.op in ("call", "pure") and re.search(ALTER, fn_of(x)) and not re.search(r"HashMap|BTreeMap", fn_of(x))] + [x.op for x in subterms(t) if x.op in ("slice", "push", "ext")]


def named(prog, f, i, I):
    return mk_arg(prog, f, i, I)


def argtypes(prog, f):
    fn = prog.fns[f]
    return fn


def key_of(t):
    """the key under which an archive or file was looked up"""
    for x in subterms(t):
        if x.op in ("call", "pure") and re.search(r"(HashMap|BTreeMap).*::(get|get_mut|remove|entry|get_key_value)$|::index(_mut)?$", fn_of(x)) and len(args_of(x)) > 1:
            return peel(args_of(x)[1])
    return None


def names(ctx, f, g, I, first):
    prog = ctx.prog
    for s in I.sites():
        if not ARCH.match(s.fn):
            continue
        ctx.count("archive_calls")
        name = I.simp(I.dv(s.st, s.vals[0 if "::open" in s.fn else 1]))
        short = s.fn.rsplit("::", 1)[-1]
        if "FileEntry.name" in deep(name):
            ctx.count("listed_names")
        else:
            p = peel(name)
            ps = params_in(name)
            alt = altered(name)
            if alt:
                ctx.violation("name:%s:%s" % (f, short), "%s gives %s a changed name (%s)" % (f, short, alt[0]), g.span(s.node))
            elif p.op == "param" and first is not None and p is not first:
                ctx.violation("name:%s:%s" % (f, short), "%s gives %s %s; expected %s" % (f, short, show(p), show(first)), g.span(s.node))
            elif is_c(p) or p.op == "s" or not ps and p.op in ("bytes", "c", "s"):
                ctx.violation("name:%s:%s" % (f, short), "%s gives %s a fixed name" % (f, short), g.span(s.node))
        if "::open" not in s.fn:
            key = key_of(I.dv(s.st, s.vals[0]))
            if key is not None:
                ctx.count("archive_keys")
                if key.op in ("lin", "c", "and", "or", "xor", "shr", "shl"):
                    ctx.violation("handle:%s:%s" % (f, short), "%s uses the archive stored under %s, not under the handle it was given" % (f, show(key)[:60]), g.span(s.node))
                elif key.op == "param" and key is not named(prog, f, 0, I):
                    ctx.violation("handle:%s:%s" % (f, short), "%s uses the archive stored under %s" % (f, show(key)[:60]), g.span(s.node))


def handles(ctx, f, g, I):
    prog = ctx.prog
    for nid, fr, x, st in I.steps():
        v = x.get("v") or {}
        if v.get("r") != "agg" or not re.search(r"::(FileHandle|ArchiveHandle)$", str(v.get("adt"))):
            continue
        adt = v["adt"]
        t = I.simp(I.rvalue(st, fr, v, x.get("sp")))
        if t.op != "agg":
            continue
        fl = dict(zip([y[0] for y in prog.adts[adt]["variants"][0]["fields"]], [I.simp(y) for y in t.a[3]]))
        ctx.count("handles_made")
        sp = x.get("sp")

        def bad(k, what):
            ctx.violation("handle-field:%s" % k, "%s stores %s as the %s of a new handle; expected %s" % (f, show(fl[k])[:80], k, what), sp)
        if "data" in fl:
            d = fl["data"]
            src = peel(d)
            if altered_data(d) or any(altered_data(y) or cut(y) for y in sectors.alternatives(I, d)) or not merged(d) and not any(fn_of(y).endswith("::read_file") for y in subterms(d) if y.op in ("call", "pure")):
                bad("data", "the content read")
        if "position" in fl and not is_c(bare(fl["position"]), 0):
            bad("position", "0")
        if "size" in fl:
            d = bare(fl["size"])
            if not (merged(d) or "FileInfo.file_size" in deep(d) and d.op != "lin" or d.op == "len" or fn_of(d).endswith("::len")):
                bad("size", "the size of the file")
        for k in ("filename", "path"):
            if k in fl:
                p = peel(fl[k])
                want = c_names(prog, f, I)
                if any(altered(y) for y in sectors.alternatives(I, fl[k])) or any(altered(y) for y in content(I, fl[k])) or want and p.op == "param" and p is not want[0]:
                    bad(k, "the name given")
        if "archive_handle" in fl:
            p = peel(fl["archive_handle"])
            if p.op in ("lin", "c") or p.op == "param" and p is not named(prog, f, 0, I):
                bad("archive_handle", "the handle given")


def merged(t):
    """the value comes out of a merge of paths the term does not see through"""
    while t.op in ("f", "dc", "&", "*", "der", "cast"):
        t = t.a[1] if t.op == "cast" else t.a[0]
    return t.op == "phi"


def cut(t):
    return any(y.op in ("call", "pure") and re.search(r"::(strip_\w+|split\w*|trim\w*|get|index)$", fn_of(y)) and any(fn_of(z).endswith("::read_file") for z in subterms(y) if z.op in ("call", "pure")) for y in subterms(t))


def altered_data(t):
    return [y for y in subterms(t) if y.op in ("slice", "push", "ext", "upd", "store") or y.op in ("call", "pure") and re.search(r"::(truncate|split_\w+|resize|drain|take|skip|rev|repeat)$", fn_of(y))]


def c_names(prog, f, I):
    """parameters that are C strings, in order"""
    out = []
    for i, ty in enumerate(params_of(prog, f)):
        if re.search(r"\*const (i8|u8|core::ffi::c_char|std::ffi::c_char|c_char)", ty):
            out.append(named(prog, f, i, I))
    return out


def params_of(prog, f):
    fn = prog.fns[f]
    n = fn.get("args") or fn.get("nargs") or fn.get("argc") or 0
    ls = fn.get("locals") or fn.get("tys") or []
    out = []
    for i in range(1, (n if isinstance(n, int) else len(n)) + 1):
        y = ls[i] if i < len(ls) else ""
        out.append(str(y.get("ty", y) if isinstance(y, dict) else y))
    return out


def extraction(ctx, f, g, I):
    cs = c_names(ctx.prog, f, I)
    for s in I.sites():
        if s.fn != "std::fs::write" or len(cs) < 2:
            continue
        ctx.count("extractions")
        p, d = I.simp(I.dv(s.st, s.vals[0])), I.simp(I.dv(s.st, s.vals[1]))
        q = peel(p)
        if altered(p) or q.op == "param" and q is not cs[1]:
            ctx.violation("extract:path", "%s writes to %s; expected %s" % (f, show(p)[:80], show(cs[1])), g.span(s.node))
        if altered_data(d) or not merged(d) and not any(fn_of(y).endswith("::read_file") for y in subterms(d) if y.op in ("call", "pure")):
            ctx.violation("extract:data", "%s writes %s; expected the content read" % (f, show(d)[:80]), g.span(s.node))


def fields(t):
    return {m for x in subterms(t) if x.op == "f" for m in [str(x.a[1])] if m.startswith(("FileHandle.", "ArchiveHandle."))}


def out_writes(I, g, p):
    """(node, value, span) for every write through pointer parameter p"""
    for nid, fr, x, st in I.steps():
        pl = x["p"]
        if len(pl) > 1 and pl[1]:
            loc = I.loc_of(st, fr, pl)
            if isinstance(loc, tuple) and loc[0][0] != "L" and any(y is p for y in subterms(loc[0][1])):
                yield nid, I.simp(I.rvalue(st, fr, x.get("v") or {}, x.get("sp"))), x.get("sp")


def size(ctx, f, g, I):
    sp = ctx.prog.fns[f]["span"]
    for r in g.returns:
        if r not in I.instate:
            continue
        rv = I.read(I.at_term(r), (("L", g.root.id, 0), ()))
        for v in sectors.alternatives(I, I.simp(rv)):
            if fields(v):
                ctx.count("sizes_reported")
                if fields(v) - {"FileHandle.size", "FileHandle.data"} or any(x.op in ("shr", "lin") for x in subterms(v)):
                    ctx.violation("size", "%s returns %s; expected the low half of the size" % (f, show(v)[:80]), sp)
    for nid, v, s in out_writes(I, g, named(ctx.prog, f, 1, I)):
        v = bare(v)
        if fields(v):
            ctx.count("sizes_reported")
            b = v
            while b.op == "cast":
                b = b.a[1]
            if fields(v) - {"FileHandle.size", "FileHandle.data"} or not (b.op == "shr" and is_c(b.a[1], 32) or b.op == "div" and is_c(b.a[1], 2**32)):
                ctx.violation("size:high", "%s reports %s as the high half of the size" % (f, show(v)[:80]), s)


def info(ctx, f, g, I):
    cls = named(ctx.prog, f, 1, I)
    for nid, v, sp in out_writes(I, g, named(ctx.prog, f, 2, I)):
        k = None
        for c, pol in I.instate[nid].facts if nid in I.instate else ():
            if c.op == "eq" and pol:
                for x, y in (c.a, c.a[::-1]):
                    if peel(x) is cls and is_c(y):
                        k = y.a[0]
        if k not in INFO:
            continue
        ctx.count("info_values")
        d = deep(v) + " " + " ".join(fn_of(x) for x in subterms(v) if x.op in ("call", "pure"))
        for j, m in INFO.items():
            if j != k and m in d and INFO[k] not in d:
                ctx.violation("info:%d" % k, "%s reports %s for class %d; expected %s" % (f, show(v)[:80], k, INFO[k]), sp)
        if bare(v).op == "lin":
            ctx.violation("info:%d" % k, "%s reports %s for class %d" % (f, show(v)[:80], k), sp)


def seek(ctx, f, g, I):
    """begin, current, end"""
    m = named(ctx.prog, f, 3, I)
    for p, inc in I.phi_in.items():
        cases = []
        for (u, _), v in inc.items():
            v = I.simp(v)
            fs = [(c, pol) for c, pol in (I.instate[u].facts if u in I.instate else ())]
            k = [y.a[0] for c, pol in fs if c.op == "eq" and pol for x, y in (c.a, c.a[::-1]) if peel(x) is m and is_c(y)]
            if len(k) == 1:
                cases.append((k[0], v, u))
        if not any("FileHandle.position" in fields(v) for _, v, _ in cases) or not any("FileHandle.data" in deep(v) or "FileHandle.size" in fields(v) for _, v, _ in cases):
            continue
        for k, v, u in cases:
            ctx.count("seek_cases")
            pos, end = "FileHandle.position" in fields(v), "FileHandle.data" in deep(v) or "FileHandle.size" in fields(v)
            if (pos, end) != {0: (False, False), 1: (True, False), 2: (False, True)}.get(k, (False, False)):
                ctx.violation("seek:%d" % k, "%s counts from %s for method %d" % (f, "the current position" if pos else "the end" if end else "the beginning", k), g.span(u))
            elif any(str(x.op).endswith("_sub") and len(x.a) > 1 and isinstance(x.a[1], T) and not fields(x.a[1]) and not is_c(x.a[1]) or x.op in ("call", "pure") and re.search(r"_sub$", fn_of(x)) and len(args_of(x)) > 1 and not fields(args_of(x)[1]) and not is_c(args_of(x)[1]) for x in subterms(v)):
                ctx.violation("seek:%d" % k, "%s moves against the offset given for method %d" % (f, k), g.span(u))
            elif k and any(a < 0 for x in subterms(v) if x.op == "lin" for _, a in x.a[1]):
                ctx.violation("seek:%d" % k, "%s moves against the offset given for method %d" % (f, k), g.span(u))


def copies(ctx, f, g, I, field):
    for s in I.sites():
        if s.fn.endswith("copy_nonoverlapping") or s.fn.endswith("ptr::copy") or s.fn.endswith("intrinsics::copy"):
            d = fields(I.dv(s.st, s.vals[0])) | fields(s.vals[0]) | {w for w in re.findall(r"(?:File|Archive)Handle\.\w+", " ".join(deep(x) for x in content(I, s.vals[0])))}
            d -= {"ArchiveHandle.archive", "FileHandle.archive_handle"}
            ctx.count("names_copied")
            if d and d != {field}:
                ctx.violation("copied:" + f, "%s copies %s; expected %s" % (f, ", ".join(sorted(d)), field), g.span(s.node))


class Create(FactEsp):
    def __init__(self, g, I, disp):
        self.disp = disp
        super().__init__(g, I)
        self.hits = []

    def relevant(self, c):
        if c.op == "eq" and any(peel(x) is self.disp for x in c.a):
            return True
        return c.op in ("call", "pure", "eq") and any(x.op in ("call", "pure") and EXISTS.search(fn_of(x)) for x in subterms(c))

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if p.endswith("ArchiveBuilder::build"):
            self.hits.append((facts, node.id, self.cur))
        return None


EXISTS = re.compile(r"::(exists|try_exists|is_file|metadata|symlink_metadata)$")


def create(ctx, f, g, I):
    e = Create(g, I, named(ctx.prog, f, 1, I))
    e.start("")
    for facts, nid, cur in e.hits:
        ctx.count("create_paths")
        k, ex = None, None
        for c, pol in facts:
            if c.op == "is":
                continue
            if c.op == "eq" and any(peel(x) is e.disp for x in c.a):
                if pol:
                    k = [x.a[0] for x in c.a if is_c(x)][0]
            elif any(x.op in ("call", "pure") and EXISTS.search(fn_of(x)) for x in subterms(c)):
                ex = pol if c.op in ("call", "pure") else "?"
        if k not in (1, 2, 4, 5):
            ctx.violation("create:%s" % k, "%s creates an archive for disposition %s, which does not ask for it" % (f, "3 (open existing)" if k == 3 else "unknown" if k is None else k), g.span(nid), e.trail(cur))
        elif k in (1, 4) and ex not in (False, "?"):
            ctx.violation("create:%d" % k, "%s replaces an existing file for disposition %d (%s)" % (f, k, "create new" if k == 1 else "open always"), g.span(nid), e.trail(cur))
        elif k == 5 and ex not in (True, "?"):
            ctx.violation("create:5", "%s creates a file that did not exist for disposition 5 (truncate existing)" % f, g.span(nid), e.trail(cur))


def enum(ctx, f, g, I):
    prog = ctx.prog
    cs = c_names(prog, f, I)
    loops = natural_loops(g)
    for s in I.sites():
        if s.fn.endswith("CString::new") or s.fn.endswith("into_raw"):
            v = I.dv(s.st, s.vals[0])
            d = deep(v)
            if "FileEntry." in d:
                ctx.count("names_enumerated")
                if altered(v) or "FileEntry.name" not in d:
                    ctx.violation("enum:name", "%s hands out %s; expected the name listed" % (f, show(v)[:80]), g.span(s.node))
        if re.search(r"::(skip|take|step_by|take_while|skip_while|truncate|dedup\w*|pop|remove|drain|retain)$", s.fn) and "HashMap" not in s.fn:
            ctx.violation("enum:all", "%s leaves out names: %s" % (f, s.fn), g.span(s.node))
    for h, body in loops.items():
        for nid in body:
            if nid not in I.instate:
                continue
            for lab, _ in g.nodes[nid].succ:
                for c, pol in I.new_facts(nid, lab) or ():
                    w = set(re.findall(r"FileEntry\.(\w+)", deep(c))) - {"name"}
                    if w:
                        ctx.violation("enum:all", "%s hands out a name or not depending on its %s" % (f, ", ".join(sorted(w))), g.span(nid))


def run(ctx):
    ctx.rule = RULE
    prog = ctx.prog
    for f in exported(prog):
        g = ffi_graph(prog, f)
        I = Interp(g)
        ctx.functions |= {fr.path for fr in g.frames}
        short = f.rsplit("::", 1)[-1]
        cs = c_names(prog, f, I)
        names(ctx, f, g, I, cs[0] if cs else None)
        handles(ctx, f, g, I)
        if short == "SFileExtractFile":
            extraction(ctx, f, g, I)
        elif short == "SFileGetFileSize":
            size(ctx, f, g, I)
        elif short == "SFileGetFileInfo":
            info(ctx, f, g, I)
        elif short == "SFileSetFilePointer":
            seek(ctx, f, g, I)
        elif short == "SFileGetFileName":
            copies(ctx, f, g, I, "FileHandle.filename")
        elif short == "SFileGetArchiveName":
            copies(ctx, f, g, I, "ArchiveHandle.path")
        elif short == "SFileCreateArchive":
            create(ctx, f, g, I)
        elif short == "SFileEnumFiles":
            enum(ctx, f, g, I)
    ctx.floor("archive_calls", 5)
