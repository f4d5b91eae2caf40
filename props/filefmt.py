"""Shared by the checks about stored file data: the function of the builder that stores one file, the reader's counterpart, and what their I/O means."""
import re
from mir import Graph, RESULT, OK, ERR
from terms import Interp, show, subterms, mk, add, C, is_c, leaves
from factesp import FactEsp, invariant

B = "mopaq::builder::ArchiveBuilder"
F_IMPLODE, F_COMPRESS, F_ENCRYPTED, F_FIX, F_SINGLE, F_CRC, F_EXISTS = 0x100, 0x200, 0x10000, 0x20000, 0x01000000, 0x04000000, 0x80000000
MUTBUF = re.compile(r"^&mut (\[u8\]|\[u32\]|alloc::vec::Vec<u(8|32)>)$")


def cryptors(prog, block):
    """functions that transform a caller's buffer in place through the block cipher"""
    out = set()
    for p, f in prog.fns.items():
        if f["crate"] != "mopaq" or "{closure" in p:
            continue
        tys = [l["ty"] for l in f["locals"][1:f["argc"] + 1]]
        if any(MUTBUF.match(t) for t in tys) and "u32" in tys and (p == block or block in prog.reachable([p])):
            out.add(p)
    return out


def encryptors(prog):
    return cryptors(prog, "mopaq::crypto::encryption::encrypt_block")


def decryptors(prog):
    return cryptors(prog, "mopaq::crypto::decryption::decrypt_block")


def compressors(prog):
    return {p for p in prog.fns if re.match(r"^mopaq::compression::(\w+::)*compress$", p)}


def decompressors(prog):
    return {p for p in prog.fns if re.match(r"^mopaq::compression::(\w+::)*decompress$", p)}


def file_writers(prog):
    """the function(s) of the builder that store one file and say how: they return the flags, and compress and encrypt on the way"""
    build = B + "::build"
    if build not in prog.fns:
        return []
    comp, enc = compressors(prog), encryptors(prog)
    out = []
    reach = prog.reachable([build])
    for p in reach:
        f = prog.fns[p]
        if f["crate"] != "mopaq" or "{closure" in p:
            continue
        ty = f["locals"][0]["ty"]
        if not re.search(r"Result<\((\w+, )*u32(, \w+)*\)|Result<u32", ty):
            continue
        r = prog.reachable([p])
        if comp & set(r) and enc & set(r):
            out.append(p)
    # the smallest one around all of the work done per file (parts of it may have been split off)
    sub = {p: set(prog.reachable([p])) for p in out}
    cg = prog.callgraph()[0]
    res = set()
    for top in (p for p in out if not any(q != p and p in sub[q] for q in out)):
        inner = {p for p in out if p in sub[top] and not any(q != p and q in sub[p] for q in out)}
        need = {p for p in sub[top] if any(q not in out and (q in comp or comp & set(prog.reachable([q]))) for q, _, _ in cg.get(p, []) if q in prog.fns)}
        fit = [p for p in out if p in sub[top] and need <= sub[p] and inner <= sub[p]] or [top]
        res |= {p for p in fit if not any(q != p and q in sub[p] for q in fit)}
    return sorted(res)


def writer_graph(prog, w):
    enc = encryptors(prog) | compressors(prog)
    return Graph(prog, w, inline=lambda p, fr: p.startswith("mopaq::") and p not in enc and not p.startswith(("mopaq::compression", "mopaq::crypto")))


def reader_graph(prog, r):
    dec = decryptors(prog) | decompressors(prog)
    return Graph(prog, r, inline=lambda p, fr: p.startswith("mopaq::") and p not in dec and not p.startswith(("mopaq::compression", "mopaq::crypto"))
                 and "Result<core::option::Option<mopaq::archive::FileInfo>" not in prog.fns[p]["locals"][0]["ty"])


def counter(t):
    """the number enumerate() hands out with an element"""
    x = t
    d = 0
    while x.op == "f":
        last = x.a[1]
        x, d = x.a[0], d + 1
        if d == 1:
            first = last
    if d != 2 or first not in (0, "0") or x.op != "dc" or x.a[0].op != "next":
        return False
    ch = x.a[0].a[1]
    while ch.op in ("call", "pure") and str(ch.a[0]).endswith(("::take", "::skip")) or ch.op in ("take", "skip"):
        ch = ch.a[0] if ch.op in ("take", "skip") else (ch.a[2] if ch.op == "call" else ch.a[1])[0]
    return ch.op == "enumerate" or ch.op in ("call", "pure") and str(ch.a[0]).endswith("::enumerate")


def content(I, t, stop=("len",)):
    """subterms a value is made of, through phis, but not through lengths"""
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if x in seen or not hasattr(x, "op"):
            continue
        seen.add(x)
        if x.op in stop:
            continue
        if x.op == "phi":
            work.extend(I.phi_in.get(x, {}).values())
            continue
        if counter(x):
            continue
        if x.op == "idx":
            work.append(x.a[0])
            continue
        if x.op == "store" and len(x.a) == 3:
            work.extend(y for y in (x.a[0], x.a[2]) if hasattr(y, "op"))
            continue
        if x.op == "out" and len(x.a) >= 5 and re.search(r"Seek|seek|read_exact", str(x.a[2])):
            continue
        for y in x.a:
            if isinstance(y, tuple):
                work.extend(flat(y))
            elif hasattr(y, "op"):
                work.append(y)
    return seen


def flat(t):
    for y in t:
        if isinstance(y, tuple):
            yield from flat(y)
        elif hasattr(y, "op"):
            yield y


def kind_of(I, t, is_data):
    """what a written value is: checksum, file data, or a table of offsets"""
    cs = content(I, t, ("len", "lt", "eq"))
    names = {str(x.a[0]) for x in cs if x.op in ("call", "pure") and x.a}
    data = any(is_data(x) for x in cs)
    crc = any(re.search(r"adler", str(x.a)) for x in cs if x.op in ("call", "pure"))
    if crc:
        return "crc"
    if data:
        return "data"
    return "tab"
