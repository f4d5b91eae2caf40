import re
from common import *

RULE = ("Effect analysis over the whole-workspace call graph (MIR, trait calls resolved, closures attributed to the function "
        "that creates them): every call that can change the file system (anything in std::fs, std::os, std::process, tempfile, "
        "memmap2, libc that is not on the read-only list, and io::Write on a File) must lie on call chains that all pass "
        "through an operation whose job is to write: ArchiveBuilder::build in the library, SFileExtractFile in the C API, and "
        "`archive create`, `file extract` and config saving in the CLI.  Every other public entry point is read-only.")

WRITERS = {"mopaq::builder::ArchiveBuilder::build", "storm::SFileExtractFile"}
CREATORS = {"mopaq::archive::OpenOptions::create", "storm::SFileCreateArchive"}
# CLI commands whose purpose is to write, by (module, name)
CLI_WRITERS = re.compile(r"^storm_cli::commands::(archive::create|file::extract)$|^storm_cli::config::save_config$")


def entries(prog):
    out = []
    for p, f in prog.fns.items():
        if "{closure" in p:
            continue
        if f["crate"] == "mopaq" and f.get("reach"):
            out.append(p)
        elif f["crate"] == "storm" and (f.get("symbol") or f.get("reach") or f.get("abi") == "C"):
            out.append(p)
        elif f["crate"] == "storm_cli" and (p == "storm_cli::main" or f.get("pub")):
            out.append(p)
    return out


def run(ctx):
    prog = ctx.prog
    for w in WRITERS:
        ctx.need(w)
    blocked = set(WRITERS) | {p for p in prog.fns if CLI_WRITERS.match(p)}
    ctx.count("writing_operations", len(blocked))
    roots = [p for p in entries(prog) if p not in blocked]
    par = avoid_reach(prog, roots, blocked)
    cg, ext = prog.callgraph()
    n = 0
    for f in sorted(par):
        for (p, sp, bb, k) in ext.get(f, []):
            n += 1
            e = fs_effect(p, k)
            if e:
                ch = chain(par, f)
                ctx.violation("fs-effect:%s:%s" % (ch[0], e),
                              "%s can change the file system (%s) and is reached from %s, which is a read-only operation" % (f, e, ch[0]),
                              sp, ch)
    # an archive is built only by the operations documented to create one
    b = "mopaq::builder::ArchiveBuilder::build"
    creators = (blocked - {b}) | CREATORS
    par2 = avoid_reach(prog, [r for r in roots if r not in creators and not r.startswith("mopaq::test_utils")], creators)
    for f in sorted(par2):
        for (c, sp, bb) in cg.get(f, []):
            if c == b:
                ch = chain(par2, f)
                ctx.violation("builds:%s" % ch[0], "%s, a read-only operation, reaches ArchiveBuilder::build" % ch[0], sp, ch + [c])
    ctx.count("entry_points", len(roots))
    ctx.count("external_calls_judged", n)
    writes = 0
    for f in prog.fns:
        for (p, sp, bb, k) in ext.get(f, []):
            if fs_effect(p, k):
                writes += 1
                ctx.sample("%s: %s at %s:%s" % (f, p, sp[0], sp[1]))
    ctx.count("writing_call_sites", writes)
    ctx.floor("writing_call_sites", 3)
    ctx.floor("entry_points", 30)
    ctx.analysed(par)
