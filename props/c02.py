import re
from common import *
from mir import Graph, RESULT, ERR
from terms import Interp, leaves, show, subterms
from errflow import _Walk, FMT, result_ty

RULE = ("Effect + value-flow + typestate analysis of ArchiveBuilder::build with its helpers inlined.  (1) The only file-system effects "
        "reachable from build (and from the operations that create archives through it) are: creating one named temporary file, writing/seeking/"
        "flushing it, and persisting it.  (2) The temporary file's directory is the parent of the destination argument (or `.`), and the persist "
        "call publishes exactly that file to exactly the destination argument.  (3) Every path to persist first writes the archive; "
        "buffered writers are flushed before it; nothing is written after it.  (4) Assuming any fallible step fails, no path from it reaches persist.")

BUILD = "mopaq::builder::ArchiveBuilder::build"
ALLOWED = re.compile(r"^tempfile::file::NamedTempFile::new_in$|^tempfile::(file::)?Builder::.*|^tempfile::Builder.*|^tempfile::file::NamedTempFile::<F>::(as_file_mut|as_file|path|persist|reopen)$"
                     r"|^std::fs::File::(sync_all|sync_data|set_len)$|File as .*(Write|Seek)>::|Write::\w+ on |tempfile::file::NamedTempFile(<F>)? as .*(Write|Seek)>::")
CREATE = re.compile(r"^tempfile::file::NamedTempFile::new_in$|tempfile::.*::tempfile_in$")
PERSIST = re.compile(r"^tempfile::file::NamedTempFile::<F>::persist$")
WRITE = re.compile(r"io::write::Write::(write|write_all)$|as .*write::Write>::(write|write_all)$|io::copy")
FLUSH = re.compile(r"::flush$|::into_inner$")


def run(ctx):
    prog = ctx.prog
    if not ctx.need(BUILD):
        return
    cg, ext = prog.callgraph()
    # (1) effects
    roots = [BUILD] + [r for r in ("mopaq::archive::OpenOptions::create", "storm::SFileCreateArchive", "storm_cli::commands::archive::create")
                       if r in prog.fns]
    par = prog.reachable(roots)
    ctx.analysed(par)
    persist_fns = set()
    writes = set()
    for f in sorted(par):
        for (p, sp, bb, k) in ext.get(f, []):
            e = fs_effect(p, k)
            ctx.count("external_calls_judged")
            if PERSIST.match(p):
                persist_fns.add(f)
                ctx.count("persist_sites")
            if WRITE.search(p):
                writes.add(f)
            if e and not ALLOWED.search(e):
                ctx.violation("effect:%s:%s" % (f, e), "%s performs %s while an archive is being created; only the temporary file may be touched before it is published" % (f, e),
                              sp, prog.chain(par, f))
            ga = " ".join(k.get("ga") or [])
            if re.search(r"mem::(forget|ManuallyDrop)|ManuallyDrop::<T>::new|Box::<T>::leak|Box::<T, A>::leak", p) and "tempfile" in ga:
                ctx.violation("forget:%s" % f, "%s leaks the temporary file handle through %s, so a failed build leaves its temporary file behind" % (f, p), sp)
            if re.search(r"^tempfile::.*::(keep|into_parts|into_temp_path|into_file|disable_cleanup|persist_noclobber)$", p):
                ctx.violation("keep:%s" % f, "%s defeats the cleanup or publication of the temporary file through %s" % (f, p), sp)
    ctx.floor("persist_sites", 1)
    if not persist_fns:
        return
    # (2) values
    g = Graph(prog, BUILD, inline=lambda p, fr: not re.match(r"mopaq::(compression|crypto)::", p))
    I = Interp(g)
    sites = I.sites()
    persists = [s for s in sites if PERSIST.match(s.fn)]
    news = [s for s in sites if CREATE.search(s.fn)]
    ctx.count("temp_file_creations", len(news))
    ctx.count("call_sites_interpreted", len(sites))
    if not news:
        ctx.violation("no-temp", "build publishes a file that is not a fresh named temporary file")

    def strip(t):
        while t.op in ("&", "*", "der"):
            t = t.a[0]
        return t
    argl = [l for l in range(1, g.frames[0].fn["argc"] + 1)]
    dest_terms = set()
    for s in persists:
        d = strip(s.vals[1])
        dest_terms.add(d)
        roots_ = {x for x in subterms(d) if x.op == "arg" or x.op == "param"}
        if not (show(d).startswith("arg") and len(roots_) <= 1 and strip(d).op in ("arg", "param", "pure")):
            ctx.violation("dest", "persist publishes to %s, not to the destination path given to build" % show(d)[:200], s.sp)
        src = [x for x in subterms(s.vals[0]) if x.op == "call" and x.a[0] and CREATE.search(str(x.a[0]))]
        if not src:
            ctx.violation("persist-src", "persist publishes something other than the temporary file created by this build: %s" % show(s.vals[0])[:200], s.sp)
    for s in news:
        dirarg = s.vals[-1]
        for lf in leaves(I, dirarg):
            x = strip(lf)
            ok = False
            sx = show(x)
            if sx in ('"."', "s(.)") or x.op in ("s",) and "." == x.a[0]:
                ok = True
            for y in subterms(x):
                if y.op == "pure" and y.a[0].endswith("Path::parent"):
                    if any(strip(z) in dest_terms for z in subterms(y)):
                        ok = True
                if y.op == "s" and y.a[0] == ".":
                    ok = True
            if not ok:
                ctx.violation("tempdir", "the temporary file is created in %s, not next to the destination; publication would not be an atomic rename" % sx[:200], s.sp)
    # (3)/(4) typestate over build with only the functions that can reach persist inlined
    reach_p = set()
    rev = {}
    for f, cs in cg.items():
        for (c, sp, bb) in cs:
            rev.setdefault(c, set()).add(f)
    st = list(persist_fns)
    while st:
        f = st.pop()
        if f in reach_p:
            continue
        reach_p.add(f)
        st += list(rev.get(f, ()))
    wreach = set()
    st = list(writes)
    while st:
        f = st.pop()
        if f in wreach:
            continue
        wreach.add(f)
        st += list(rev.get(f, ()))
    h = Graph(prog, BUILD, inline=lambda p, fr: p in reach_p)

    def callee(n):
        t = n.term[2] if n.term and n.term[0] == "call" else None
        if t is None:
            return None, None
        k = t["f"].get("k") or {}
        return k.get("res") or k.get("fn") or "", k
    pers, wr, fl, bufs = set(), set(), set(), set()
    for n in h.nodes:
        if n is None or not n.term or n.term[0] != "call":
            continue
        p, k = callee(n)
        fn = k.get("fn") or ""
        if PERSIST.match(p) or PERSIST.match(fn):
            pers.add(n.id)
            continue
        tg = set(prog.callee_paths(k)) if k else set()
        if WRITE.search(p) or WRITE.search(fn) or tg & wreach:
            wr.add(n.id)
        if re.search(r"BufWriter::<W>::(new|with_capacity)|LineWriter", p):
            bufs.add(n.id)
        if FLUSH.search(p) and "BufWriter" in (p + (k.get("self") or "") + " ".join(k.get("ga") or [])):
            fl.add(n.id)
    entry = h.rpo[0]
    reached = h.forward([entry], stop=lambda i: i in wr)
    if reached & pers:
        ctx.violation("publish-empty", "a path reaches persist without writing the archive", h.span(min(reached & pers)))
    for b in bufs:
        if h.forward([b], stop=lambda i: i in fl) & pers:
            ctx.violation("unflushed", "a buffered writer can reach persist without a checked flush, so the published file may be incomplete", h.span(b))
    for p in pers:
        aft = h.forward([p]) - {p}
        for i in aft & wr:
            ctx.violation("write-after", "the archive is still written after it has been published", h.span(i))
    nfail = 0
    for n in h.nodes:
        if n is None or n.id in pers or not n.term or n.term[0] != "call" or n.id not in set(h.rpo):
            continue
        t = n.term[2]
        if t.get("dest") is None:
            continue
        fr = n.term[1]
        d = t["dest"]
        ty = fr.fn["locals"][d[0]]["ty"] if len(d) == 1 or not d[1] else d[2]
        p, k = callee(n)
        if not result_ty(ty) or FMT.match(p or "") or not (h.forward([n.id]) & pers):
            continue
        nfail += 1
        hit = []

        class W(_Walk):
            def on_call(self, env, ust, node, fr2, t2, args):
                if node.id in pers if hasattr(node, "id") else node in pers:
                    hit.append(self.cur)
                return super().on_call(env, ust, node, fr2, t2, args)
        w = W(h, lambda rv, env, ust: "x")
        env = {}
        w.set_place(env, fr, d, ("v", RESULT, ERR, ()))
        w.run([(n.id, env, None, "after")])
        if hit:
            ctx.violation("publish-after-failure:%s" % p, "when %s fails, a path still publishes the archive" % p, h.span(n.id), w.trail(hit[0]))
    ctx.count("fallible_steps_before_publish", nfail)
    ctx.floor("fallible_steps_before_publish", 2)
    for s in persists + news:
        ctx.sample("%s(%s) at %s" % (s.fn, ", ".join(show(v)[:80] for v in s.vals), s.sp))
