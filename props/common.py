"""Shared vocabulary of the property checks: which external calls have which effect, and small graph helpers."""
import re
from mir import Graph, head

# --- effects of code outside the workspace --------------------------------------------------------------------------
FS_READ = re.compile(
    r"^std::fs::(read|read_to_string|read_dir|read_link|metadata|symlink_metadata|canonicalize|exists|try_exists)$"
    r"|^std::fs::File::(open|metadata|try_clone|lock_shared|try_lock_shared|unlock)$"
    r"|^std::fs::(Metadata|DirEntry|FileType|Permissions|FileTimes|ReadDir)::"
    r"|^<std::fs::[A-Za-z]+ as (core::(clone|fmt|cmp|iter|ops)|alloc::io::read|core::io::read|std::io::read|core::io::seek|std::io::seek)"
    r"|^<&std::fs::File as .*(read::Read|seek::Seek)"
    r"|^std::fs::OpenOptions::(new|read|open|custom_flags)$"
    r"|^std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize|try_exists|symlink_metadata|is_symlink|read_link)$")
FS_ANY = re.compile(r"^<?&?(mut )?(std::fs::|std::os::|std::process::|std::net::|tempfile::|memmap2::|tokio::fs|libc::|walkdir::|glob::glob)"
                    r"|^std::env::(set_|remove_)|as std::os::|^nix::|^rustix::")
TMP_READ = re.compile(r"^tempfile::.*::(path|as_file|as_ref|deref|fmt)$")
READ_CRATES = re.compile(r"^<?(walkdir::|glob::|&?'?[a-z]* ?walkdir)")


def fs_effect(path, k):
    """None: no effect on the file system beyond reading; else a short description"""
    p = path
    if FS_READ.search(p) or TMP_READ.search(p) or READ_CRATES.search(p):
        return None
    if FS_ANY.search(p):
        return p
    # trait methods on a file: Write for File
    s = (k or {}).get("self") or ""
    if re.search(r"^(core|std|alloc)::io::write::Write::|io::Write::", p) and re.search(r"(^|[ &<])std::fs::File\b|tempfile::", s):
        return "%s on %s" % (p, s)
    m = re.match(r"^<(&?(mut )?(std::fs::File|tempfile::[\w:<>, ]+)) as .*Write>", p)
    if m:
        return p
    return None


def graph(prog, path, cross=None):
    return Graph(prog, path, inline=cross or (lambda p, f: True))


def short(p):
    return p


def pub_of(prog, crate, reach=True):
    return [p for p, f in prog.fns.items() if f["crate"] == crate and "{closure" not in p and f.get("reach" if reach else "pub")]


def avoid_reach(prog, roots, blocked):
    """functions reachable from roots along chains that do not pass through a blocked function: parent map"""
    cg, _ = prog.callgraph()
    par = {}
    st = []
    for r in roots:
        if r in blocked or r in par:
            continue
        par[r] = None
        st.append(r)
    while st:
        f = st.pop()
        for (c, sp, bb) in cg.get(f, []):
            if c in blocked or c in par:
                continue
            par[c] = (f, sp)
            st.append(c)
    return par


def chain(par, p):
    out = []
    while p is not None:
        e = par[p]
        out.append(p)
        p = e[0] if e else None
    return out[::-1]


def audit_failures(ctx, ef, fns, accept, what):
    """every fallible call in fns: assuming it fails, every return of the caller is a failure"""
    prog = ctx.prog
    for f in sorted(fns):
        if f not in prog.fns or ("{closure" in f and f.rsplit("::{closure", 1)[0] in fns):
            continue        # closures are analysed as part of the function that creates them
        ctx.functions.add(f)
        for (nid, p, k, t) in ef.sites(f):
            ctx.count("fallible_call_sites")
            fate = ef.fate(f, nid)
            bad = None
            if "unknown" in fate:
                bad = ("undecided", fate["unknown"])
            elif "ok" in fate:
                bad = ("swallowed", fate["ok"])
            elif "panic" in fate and "fail" not in fate:
                bad = ("panic", fate["panic"])
            if bad is None:
                ctx.count("propagated")
                continue
            r = accept(f, p, k, bad[0], nid)
            if r:
                ctx.count("tolerated_by_design")
                continue
            sp = ef.graph(f).span(nid)
            if bad[0] == "panic":
                m = "when %s fails, %s panics instead of returning the error" % (p, f)
            elif bad[0] == "swallowed":
                m = "when %s fails, %s can still return success: %s" % (p, f, what)
            else:
                m = "the failure of %s in %s could not be followed" % (p, f)
            ctx.violation("%s:%s:%s" % (bad[0], f, p), m, sp, bad[1])


def only_under(prog, root, roots_all):
    """workspace functions reachable from root but from none of the other entry points except through root"""
    others = avoid_reach(prog, [r for r in roots_all if r != root], {root})
    return {f for f in prog.reachable([root]) if f not in others} | {root}


def library_entries(prog):
    return [p for p, f in prog.fns.items() if f["crate"] == "mopaq" and f.get("reach") and "{closure" not in p]


def shared(ctx, fn, prefixes, alias=""):
    """run a rule of another property and take over the violations that also break this one"""
    sub = ctx.__class__(ctx.prog, ctx.tier)
    fn(sub)
    for v in sub.viol:
        if v["key"].startswith(prefixes):
            ctx.viol.append(v)
    for k, n in sub.counts.items():
        ctx.counts.setdefault(alias + k, n)
    ctx.functions |= sub.functions
    return sub
