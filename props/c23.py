import re
from common import *
from mir import Graph

RULE = ("Effect + value-flow analysis of everything reachable from ArchiveBuilder::build: no clock, random generator, environment, process or thread "
        "identity, pointer address, file metadata or thread is consulted, and whatever is obtained by iterating a hash map or hash set "
        "(whose order differs from run to run) is sorted before any other use.  Temporary-file names never flow into what is written.")

BUILD = "mopaq::builder::ArchiveBuilder::build"
SOURCE = re.compile(r"^<?(std::time::|chrono::|rand::|rand_core::|getrandom::|fastrand::|uuid::|std::env::|std::process::|std::thread::|std::hash::random|"
                    r"std::hash::RandomState|dirs::|hostname::|rayon::)|SystemTime|Instant::now|RandomState|expose_provenance|pointer.*::addr$|::as_ptr$|"
                    r"^std::fs::(File::metadata|metadata|Metadata::|read_dir)|tempfile::.*::path$|sort_unstable_by|DefaultHasher|thread_rng|panic::Location")
HIT = re.compile(r"collections::hash::(map|set)::Hash(Map|Set)")
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values|retain|extract_if|union|intersection|difference|symmetric_difference)$")
SORT = re.compile(r"::(sort|sort_by|sort_by_key|sort_by_cached_key|sort_unstable|sort_unstable_by|sort_unstable_by_key)$|BTree")
REDUCE = re.compile(r"[Ii]terator(<.*>)?>?::(count|max|min|sum|any|all)$")
OKUSE = re.compile(r"::(len|is_empty|push|extend|reserve|new|clone|collect|into_iter|next|size_hint|deref|deref_mut|with_capacity|drop|fmt|from_iter|copied|cloned|by_ref|insert|map|filter)$|log::|fmt::")


def run(ctx):
    prog = ctx.prog
    if not ctx.need(BUILD):
        return
    par = prog.reachable([BUILD])
    ctx.analysed(par)
    cg, ext = prog.callgraph()
    hashed = set()
    for f in sorted(par):
        for (p, sp, bb, k) in ext.get(f, []):
            ctx.count("external_calls_judged")
            if SOURCE.search(p) and "sort_unstable" not in p:
                ctx.violation("nondet:%s:%s" % (f, p), "%s, reached from build, consults %s, so two builds of the same input can differ" % (f, p), sp, prog.chain(par, f))
            m = HIT.search(p) or HIT.search(k.get("self") or "")
            if m and ITER.search(p):
                hashed.add(f)
                ctx.count("hash_iterations")
    for f, fn in prog.fns.items():
        if f not in par:
            continue
        for b in fn["blocks"]:
            for s in b["s"]:
                v = s.get("v")
                if v and v.get("r") == "cast" and "Expose" in str(v.get("ck") or v.get("kind") or ""):
                    ctx.violation("addr:" + f, "%s turns an address into a number" % f, s.get("sp"))
    if hashed:
        g = Graph(prog, BUILD, inline=lambda p, fr: not re.match(r"mopaq::(compression|crypto)::", p))
        rp = set(g.rpo)
        its, stop, sink = set(), set(), {}
        rets = set(g.returns)
        for nid in g.rpo:
            n = g.nodes[nid]
            if not n.term or n.term[0] != "call":
                continue
            k = n.term[2]["f"].get("k") or {}
            p = k.get("res") or k.get("fn") or ""
            own = HIT.search(p) or HIT.search(k.get("self") or "")
            if own and ITER.search(p) and not p.endswith("::retain"):
                its.add(nid)
            elif SORT.search(p) or REDUCE.search(p) or "BTree" in " ".join(k.get("ga") or []):
                stop.add(nid)
            elif not OKUSE.search(p) and not OKUSE.search(k.get("fn") or ""):
                sink[nid] = p
        for i in sorted(its):
            r = g.forward([i], stop=lambda x: x in stop)
            bad = [x for x in g.rpo if x in r and (x in sink or x in rets)]
            if bad:
                ctx.violation("hash-order:%s" % (sink.get(bad[0]) or "return"), "the elements of a hash map or set are used in iteration order (by %s) without being sorted first"
                              % (sink.get(bad[0]) or "the caller"), g.span(i), [str(g.span(i)), str(g.span(bad[0]))])
    ctx.floor("external_calls_judged", 500)
