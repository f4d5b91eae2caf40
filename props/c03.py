import re
from common import *
from errflow import ErrFlow
import c17
import c30
import c32

RULE = ("Failure-flow (path-sensitive dataflow over MIR): for every call returning Result in every function reachable from "
        "ArchiveBuilder::build, assume it returned Err and follow every path of the caller; each must return Err (so by induction over the call "
        "chain build returns Err).  Results that are discarded, replaced by a default, logged, or unwrapped are reported; partial writes "
        "(io::Write::write, whose count may be short) are not allowed on the output path.  No round of the loops over the pending files and over a file's sectors can complete without storing its file or sector, and what is stored for a file is its own content.")

BUILD = "mopaq::builder::ArchiveBuilder::build"


def run(ctx):
    prog = ctx.prog
    if not ctx.need(BUILD):
        return
    par = prog.reachable([BUILD])
    ef = ErrFlow(prog)
    audit_failures(ctx, ef, par, lambda f, p, k, kind, nid: None, "build would report success for an archive it did not completely write")
    cg, ext = prog.callgraph()
    for f in sorted(par):
        for (p, sp, bb, k) in ext.get(f, []):
            if re.search(r"io::write::Write::write$|as .*write::Write>::write$", p):
                s = k.get("self") or p
                ctx.violation("partial-write:" + f, "%s calls io::Write::write, which may write only part of the data" % f, sp)
            if re.search(r"io::read::Read::(read|take)$|as .*read::Read>::read$", p):
                ctx.violation("partial-read:" + f, "%s uses a read that may return fewer bytes than asked" % f, sp)
    # every pending file ends up in the archive, whole
    shared(ctx, c17.writer, ("skipped:", "undecided"))
    shared(ctx, c30.writer, ("store-sectors:skipped", "store-sectors:partial", "store-sectors:invented"))
    shared(ctx, c32.sources, ("store:invented", "store:altered", "store:other"))
    ctx.floor("fallible_call_sites", 40)
