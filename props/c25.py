import re
from common import *
from errflow import ErrFlow, CountWalk
from mir import Graph, RESULT, OPTION, ERR, OK, head

RULE = ("Failure-flow (path-sensitive dataflow over MIR) over every function of the command-line tool reachable from main: assuming a fallible call returned Err, every path of its caller returns Err, "
        "panics or exits with a status other than 0 (failures that are counted or collected are followed through the counter or collection), so main returns Err; and in the verification command, assuming a "
        "listed file is not found, cannot be read, or the signature is reported invalid, or any of the MD5 comparisons reported by the library is false, every path to the end of the command returns Err.")


class Flow(ErrFlow):
    walk = CountWalk


SMALL = 60      # basic blocks of a helper followed at its call sites


def walk_from(ef, f, g, nid, value):
    n = g.nodes[nid]
    w = CountWalk(g, ef.fail_fn(f))
    env = {}
    w.set_place(env, n.term[1], n.term[2]["dest"], value)
    w.run([(nid, env, None, "after")])
    bad = [(k, s) for k, s in w.out if k not in ("fail", "panic")]
    return (w.trail(bad[0][1]) if bad else None), w.exceeded


class Deep:
    """the same question with the tool's own helpers followed at their call sites, from the function called by main"""

    def __init__(self, ef, tool, main):
        self.ef, self.tool, self.graphs = ef, tool, {}
        prog = ef.prog
        callers = {}
        for f in tool:
            for c in {q for q, _s, _b in prog.callgraph()[0].get(f, ())}:
                callers.setdefault(c, set()).add(f)
        self.callers = callers
        self.tops = {f for f in tool if main in callers.get(f, ()) or f == main}

    def graph(self, top):
        if top not in self.graphs:
            prog = self.ef.prog
            self.graphs[top] = Graph(prog, top, inline=lambda p, fr: p.startswith("storm_cli::") and p in prog.fns and len(prog.fns[p]["blocks"]) <= SMALL)
        return self.graphs[top]

    def good(self, f, nid, value):
        """True if in every command whose code contains the call the failure is reported"""
        bb = self.ef.graph(f).nodes[nid].bb
        roots, seen, work = set(), {f}, [f]
        while work:
            x = work.pop()
            if x in self.tops:
                roots.add(x)
                continue
            for c in self.callers.get(x, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        if not roots:
            return False
        for top in roots:
            g = self.graph(top)
            hits = [n.id for n in g.nodes if n.frame.path == f and n.bb == bb and n.term and n.term[0] == "call" and n.id in set(g.rpo)]
            if not hits:
                return False
            for h in hits:
                trail, exc = walk_from(self.ef, top, g, h, value)
                if exc or trail is not None:
                    return False
        return True


def follow(ef, deep, f, nid, value):
    trail, exc = walk_from(ef, f, ef.graph(f), nid, value)
    if (exc or trail is not None) and deep.good(f, nid, value):
        return None, False
    return trail, exc


def run(ctx):
    prog = ctx.prog
    main = "storm_cli::main"
    if not ctx.need(main):
        return
    mty = prog.fns[main]["locals"][0]["ty"]
    par = {f: 1 for f in prog.reachable([main]) if f.startswith("storm_cli::")}
    ef = Flow(prog)
    deep = Deep(ef, par, main)
    if mty != "()" and head(mty) != RESULT:
        ctx.violation("main-type", "main returns %s; the rule knows only Result and explicit process::exit" % mty)
    audit_failures(ctx, ef, par, lambda f, p, k, kind, nid: kind == "panic" or deep.good(f, nid, ("v", RESULT, ERR, ())), "the tool would exit with status 0 although the operation failed")
    ctx.functions |= set(par)
    # verification: negative findings of the library
    md5 = "mopaq::archive::Md5Status"
    info = "mopaq::archive::ArchiveInfo"
    nf = len(prog.adts[md5]["variants"][0]["fields"])
    idx = [i for i, x in enumerate(prog.adts[info]["variants"][0]["fields"]) if x[0] == "md5_status"][0]
    status = "mopaq::archive::SignatureStatus"
    sidx = [i for i, x in enumerate(prog.adts[info]["variants"][0]["fields"]) if x[0] == "signature_status"][0]
    bad = {i: v["name"] for i, v in enumerate(prog.adts[status]["variants"]) if v["name"].endswith("Invalid")}
    verify = "storm_cli::commands::archive::verify"
    if not ctx.need(verify):
        return
    under = only_under(prog, verify, [main] + [p for p in prog.fns if p.startswith("storm_cli::commands::") and p.count("::") == 3 and "{" not in p])
    seen = {"md5": 0, "signature": 0, "absent": 0, "unreadable": 0}
    for f in sorted(under):
        if not f.startswith("storm_cli::") or "{closure" in f:
            continue
        for (nid, p, k, t) in ef.sites(f):
            vals = []
            if p == "mopaq::archive::Archive::get_info":
                for i in range(nf):
                    kids = [None] * idx + [("v", OPTION, 1, (("v", md5, 0, tuple(("i", 0) if j == i else None for j in range(nf))),))]
                    vals.append(("md5", prog.adts[md5]["variants"][0]["fields"][i][0] + " is false", ("v", RESULT, OK, (("v", info, 0, tuple(kids)),))))
                for vi in bad:
                    kids = [None] * sidx + [("v", status, vi, ())]
                    vals.append(("signature", "the signature status is %s" % bad[vi], ("v", RESULT, OK, (("v", info, 0, tuple(kids)),))))
            elif p == "mopaq::archive::Archive::find_file":
                vals.append(("absent", "a listed file is not found", ("v", RESULT, OK, (("v", OPTION, 0, ()),))))
            elif p == "mopaq::archive::Archive::read_file":
                vals.append(("unreadable", "a listed file cannot be read", ("v", RESULT, ERR, ())))
            for kind, what, v in vals:
                seen[kind] += 1
                ctx.count("negative_findings_followed")
                trail, exc = follow(ef, deep, f, nid, v)
                if exc or trail is not None:
                    ctx.violation("verify:%s:%s" % (what, f), "%s, but the verification can still succeed" % what, ef.graph(f).span(nid), trail)
                else:
                    ctx.sample("%s: %s -> the command fails" % (f, what))
    for k in seen:
        if not seen[k]:
            ctx.violation("verify-missing:" + k, "the verification command no longer looks at the %s result of the library" % {"md5": "MD5", "signature": "signature", "absent": "lookup", "unreadable": "read"}[k])
    ctx.floor("fallible_call_sites", 30)
    ctx.floor("propagated", 20)
