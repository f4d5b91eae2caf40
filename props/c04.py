import re
from common import *
from errflow import ErrFlow
from mir import RESULT, ERR, OK
from factesp import FactEsp
from terms import subterms
import c17
import c30

RULE = ("Failure-flow (path-sensitive dataflow over MIR) over every function reachable from opening an archive, locating, listing and reading "
        "files, loading attributes and decompressing: assuming a fallible call (I/O, seek, table parse, decompression, decryption) returned Err, "
        "every path of its caller returns Err, unless the failure is one the API documents as tolerated: the optional HET/BET tables while loading "
        "tables, a missing (attributes) file, double-compressed attributes, alternative decoders (accepted only if the caller fails once all of them "
        "fail), header probing past the end, non-UTF-8 listfiles.  Reads that may return short (io::Read::read) are not allowed.  "
        "Path rule over the sector loop of read_file: every completed round adds its sector's content exactly once, content comes from the archive, success only after the last sector, the content is not changed afterwards; a zlib stream is accepted only if it was complete; compressed single units are returned only as decompressed.")

A = "mopaq::archive::Archive::"
ROOTS = [A + x for x in ("open", "open_with_options", "load_tables", "read_file", "find_file", "list", "list_all", "list_with_hashes",
                         "list_all_with_hashes", "load_attributes")] + ["mopaq::compression::decompress::decompress"]
DECODER = re.compile(r"^(pklib|lzma_rs|flate2|bzip2)::")
CLASSIC = re.compile(r"^mopaq::tables::(hash|block)::")


class Ended(FactEsp):
    """flate2's readers take the end of their input for the end of the stream"""

    def __init__(self, g):
        super().__init__(g)
        self.rets = []

    def relevant(self, c):
        return False

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if re.search(r"::(read_to_end|read_to_string)$", p) and "flate2::" in str(k.get("self") or k.get("ga") or ""):
            return [(("v", RESULT, OK, (None,)), "open"), (("v", RESULT, ERR, (None,)), cl)]
        return None

    def edge(self, env, cl, node, lab, w):
        if cl != "open" or node.id not in self.I.instate:
            return cl
        for c, pol in self.I.new_facts(node.id, lab) or ():
            while c.op == "not":
                c, pol = c.a[0], not pol
            if pol and c.op in ("eq", "call", "pure", "phi"):
                names = " ".join(str(x.a[0]) for x in subterms(c) if x.op in ("call", "pure"))
                lens = [x for x in c.a if hasattr(x, "op") and x.op == "len"] if c.op == "eq" else []
                if re.search(r"total_in|total_out|adler|ends_with", names) or lens:
                    return "checked"
        return cl

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust[2], self.cur))


def streams(ctx, par):
    prog = ctx.prog
    cg, ext = prog.callgraph()
    for f in sorted(par):
        if not any(re.search(r"::(read_to_end|read_to_string)$", p) and "flate2::" in str(k.get("self") or k.get("ga") or "") for (p, sp, bb, k) in ext.get(f, [])):
            continue
        mod = f.rsplit("::", 1)[0]
        tops = [q for q in par if q.startswith(mod + "::") and f in prog.reachable([q]) and not any(q in cg.get(r, ()) for r in par if r.startswith(mod + "::") and r != q)] or [f]
        for top in tops:
            g = Graph(prog, top, inline=lambda q, fr: q.startswith(mod))
            ctx.functions |= {fr.path for fr in g.frames}
            e = Ended(g)
            e.start("")
            ctx.count("stream_ends", len(e.rets))
            for rv, cl, cur in e.rets:
                if cl == "open" and not (rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR):
                    ctx.violation("stream-end:" + top, "%s can succeed with data that ended before the compressed stream did: the decoder reports the end of its input as the end of the data" % top, prog.fns[top]["span"], e.trail(cur))
                    break


def run(ctx):
    prog = ctx.prog
    for r in ROOTS:
        ctx.need(r)
    par = prog.reachable([r for r in ROOTS if r in prog.fns])
    ef = ErrFlow(prog)
    entries = library_entries(prog)
    under_tables = only_under(prog, A + "load_tables", entries)
    under_header = only_under(prog, "mopaq::header::find_header", entries)
    decoders = lambda p: bool(DECODER.match(p or ""))
    err = "mopaq::error::Error"
    notfound = [i for i, v in enumerate(prog.adts[err]["variants"]) if v["name"] == "FileNotFound"]

    def reaches_classic(p):
        return bool(CLASSIC.match(p)) or any(CLASSIC.match(x) for x in prog.reachable([p])) if p in prog.fns else False

    def accept(f, p, k, kind, nid):
        base = f.split("::{closure")[0]
        if kind == "panic":
            return None
        if base in under_tables and not reaches_classic(p) and p != A + "load_attributes" and p in prog.fns:
            return "optional HET/BET tables"
        if "compression::algorithms::huffman" in f and "peek" in p:
            return "look-ahead past the end of the bit stream"
        if DECODER.match(p):
            fa = ef.fate(f, nid, persistent=decoders)
            return "alternative decoder" if "ok" not in fa and "unknown" not in fa else None
        if base in under_header:
            same = (lambda q, p=p: q == p)
            fa = ef.fate(f, nid, persistent=same)
            return "probing" if "ok" not in fa and "unknown" not in fa else None
        if p.endswith("from_utf8") and "listfile" in base:
            return "lossy listfile"
        if base == A + "load_attributes" or base in only_under(prog, A + "load_attributes", entries):
            if p == "mopaq::compression::decompress::decompress":
                return "double-compressed attributes"
            if p == A + "read_file":
                for i, v in enumerate(prog.adts[err]["variants"]):
                    fa = ef.fate(f, nid, payload=("v", err, i, ()))
                    if i not in notfound and "ok" in fa:
                        ctx.violation("attributes-error:%s" % v["name"], "load_attributes reports success when reading (attributes) fails with %s; only a missing file may be ignored" % v["name"],
                                      ef.graph(f).span(nid), fa["ok"])
                return "missing (attributes)"
        return None
    audit_failures(ctx, ef, par, accept, "the caller would take missing or damaged data for real content")
    cg, ext = prog.callgraph()
    for f in sorted(par):
        for (p, sp, bb, k) in ext.get(f, []):
            if re.search(r"io::read::Read::(read|take|by_ref|chain|bytes)$|as .*read::Read>::(read)$|for .*>::read$", p):
                ctx.violation("partial-read:" + f, "%s uses a read that may return fewer bytes than asked" % f, sp)
    streams(ctx, par)
    # sectors: nothing left out, nothing made up
    if ctx.need(c30.READ):
        shared(ctx, c30.reader, ("sectors:partial", "sectors:skipped", "sectors:twice", "sectors:invented", "sectors:altered", "sectors:rounds", "undecided:", "reader-decompress", "reader-nothing", "reader-length", "reader-parts", "anchor"))
    # a file is reported as absent only if no entry has its name
    if ctx.need(c30.READ):
        shared(ctx, c17.info, ("info:absent",))
    ctx.floor("fallible_call_sites", 50)
    ctx.floor("propagated", 40)
