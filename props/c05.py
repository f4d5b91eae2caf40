import re
from common import *
from filefmt import *
from factesp import FactEsp
from esp import Esp
from c30 import R, W, READ, flag_facts, flat_flags, show_ff
from ffi import exported
from mir import Graph, RESULT, OPTION, OK, ERR

RULE = ("Path-sensitive dataflow with provenance tags for digests (Adler-32, CRC-32, MD5) over Archive::read_file, the builder's store-one-file function and SFileVerifyFile.  read_file: every successful return for a "
        "single-unit file with SECTOR_CRC has compared the stored checksum with the digest of exactly the content (decompressed if compressed, decrypted if encrypted), and found them equal; sector digests are taken of the "
        "stored sector after decryption and before decompression.  Writer: the single-unit checksum is the digest of the unmodified content, sector checksums are digests of the sector as stored, before encryption.  "
        "SFileVerifyFile: every return of true has, for each of CRC-32 and MD5 that was requested (flags 0 means all) and recorded in the attributes, compared the recorded value with the digest of the file's content and "
        "found them equal; sector checksums that are present were checked by reading the file.  Mismatching sector checksums of multi-sector files are logged and tolerated by design of the library.")

DIG = re.compile(r"^adler::.*adler32|^adler2::.*adler32|^crc32fast::hash$|^crc32fast::.*finalize$|adler32_slice$")
VIEW = re.compile(r"Deref(Mut)?>?::deref(_mut)?$|::(as_slice|as_mut_slice|as_ref|as_mut|borrow|borrow_mut|as_bytes|into_boxed_slice)$|Index(Mut)?<core::ops::range::RangeFull>.*::index(_mut)?$")
COPY = re.compile(r"::(clone|to_vec|to_owned|into|from|try_into|branch|cloned|copied|into_vec)$|from_le_bytes$|read_u32(_le)?$|unwrap$|::as_slice$")


class Digests:
    """mixin for Esp clients: provenance of buffers, digests and comparisons.  client events are added through self.note"""

    def operand_(self, env, a):
        last = None
        while a is not None and a[0] == "r":
            last = a
            a = self.get_path(env, a[1], a[2])
        if a is not None and a[0] == "&":
            a = a[1]
        return last, a

    def put(self, env, ref, val):
        e2 = dict(env)
        nv = self.set_path(e2.get(ref[1]), ref[2], val)
        if nv is None:
            e2.pop(ref[1], None)
        else:
            e2[ref[1]] = nv
        return e2

    def rvalue(self, env, fr, v):
        if v["r"] == "bin" and v["op"] in ("Eq", "Ne"):
            a, b = self.operand(env, fr, v["a"]), self.operand(env, fr, v["b"])
            if a and b and "H" in (a[0], b[0]):
                if b[0] == "H":
                    a, b = b, a
                return ("cmp", v["op"], a[1], b)
            if (a and a[0] == "H") or (b and b[0] == "H"):
                return ("cmp", v["op"], a[1] if a and a[0] == "H" else b[1], None)
        if v["r"] == "un" and v["op"] == "Not":
            a = self.operand(env, fr, v["o"])
            if a and a[0] == "cmp":
                return ("cmp", "Ne" if a[1] == "Eq" else "Eq", a[2], a[3])
        return super().rvalue(env, fr, v)

    _pend = None

    def refine(self, env, n, fr, t, opl, lab):
        self._pend = None
        cur = env.get((fr.id, opl[0])) if opl is not None and len(opl) == 1 else None
        if cur is not None and cur[0] == "cmp":
            truth = not (lab[0] == "sw" and lab[1] == 0)
            eq = truth if cur[1] == "Eq" else not truth
            self._pend = (("same" if eq else "differ"), cur[2], self.etag(cur[3]))
        super().refine(env, n, fr, t, opl, lab)

    def etag(self, e):
        return e[1] if e is not None and e[0] in ("T", "E") else "?"

    def digest_call(self, env, p, args, t):
        """-> list of (value, event or None[, env]) or None"""
        if not args:
            return None
        r0, v0 = self.operand_(env, args[0])
        tag0 = v0[1] if v0 is not None and v0[0] in ("T", "E", "H", "HS") else None
        if DIG.search(p):
            return [(("H", tag0 if tag0 is not None else "?"), ("digest", tag0 if tag0 is not None else "?"))]
        if re.search(r"Digest>?::(new|default)$|Digest>?::new$|Default>?::default$|crc32fast::Hasher::new$", p):
            return None
        if re.search(r"(Digest|Update|Hasher)>?::update$", p) and r0 is not None and len(args) > 1:
            _, v1 = self.operand_(env, args[1])
            tg = v1[1] if v1 is not None and v1[0] == "T" else "?"
            old = v0[1] if v0 is not None and v0[0] == "HS" else None
            return [(None, None, self.put(env, r0, ("HS", tg if old in (None, tg) else "?")))]
        if re.search(r"::(finalize|finalize_fixed|finish)$", p):
            tg = tag0 if v0 is not None and v0[0] == "HS" else "?"
            return [(("H", tg), ("digest", tg))]
        if re.search(r"Digest>?::digest$", p):
            return [(("H", tag0 or "?"), ("digest", tag0 or "?"))]
        m = re.search(r"PartialEq.*::(ne|eq)$", p)
        if m and len(args) > 1:
            _, v1 = self.operand_(env, args[1])
            pair = [x for x in (v0, v1) if x is not None and x[0] == "H"]
            if pair:
                other = v1 if v0 is not None and v0[0] == "H" else v0
                e = m.group(1) == "eq"
                return [(("i", int(e)), ("same", pair[0][1], self.etag(other))), (("i", int(not e)), ("differ", pair[0][1], self.etag(other)))]
        if VIEW.search(p) or re.search(r"Index(Mut)?.*::index(_mut)?$", p) and "RangeFull" in str((t["f"].get("k") or {}).get("ga")):
            return [(args[0], None)]
        if COPY.search(p) and v0 is not None and v0[0] in ("T", "E", "H"):
            return [(v0, None)]
        return None


class DR(Digests, R):
    """the reader"""

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if node.id in self.ioc:
            kd = self.ioc[node.id]
            r, v = self.operand_(env, args[1] if len(args) > 1 else None)
            e2 = self.put(env, r, ("T", kd)) if r is not None else env
            return [(("v", RESULT, OK, (None,)), cl | {kd}, e2)]
        if p in self.dec:
            r, v = self.operand_(env, args[0])
            if r is not None and v is not None and v[0] == "T":
                return [(None, cl | {"dec:" + v[1]}, self.put(env, r, ("T", v[1] + "+dec")))]
            return [(None, cl | {"dec:?"})]
        if p in self.decomp:
            return [(("v", RESULT, OK, (("T", "plain"),)), cl | {"decomp"}), (("v", RESULT, ERR, (None,)), cl)]
        d = self.digest_call(env, p, args, t)
        if d is not None:
            return [(o[0], cl | {o[1]} if o[1] else cl) + tuple(o[2:]) for o in d]
        return None

    def edge(self, env, cl, node, lab, w):
        if self._pend:
            cl = cl | {self._pend}
            self._pend = None
        return cl

    def on_edge(self, env, ust, node, lab, w):
        r = super().on_edge(env, ust, node, lab, w)
        self._pend = None
        return r


def reader(ctx):
    prog = ctx.prog
    if not ctx.need(READ):
        return
    g = reader_graph(prog, READ)
    ctx.functions |= {fr.path for fr in g.frames}
    e = DR(g, prog)
    e.start(frozenset())
    sp = prog.fns[READ]["span"]
    if e.exceeded:
        ctx.violation("undecided:reader", "too many paths in read_file", sp)
    seen = set()
    for rv, ust, cur in e.rets:
        if rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR:
            continue
        ff, ev = flag_facts(ust[0]), ust[2]
        ctx.count("reader_return_states")
        single, crc, comp, enc = ff.get(F_SINGLE), ff.get(F_CRC), ff.get(F_COMPRESS | F_IMPLODE), ff.get(F_ENCRYPTED)
        pairs = {x for x in ev if isinstance(x, tuple)}
        same = {(x[1], x[2]) for x in pairs if x[0] == "same"}
        differ = {(x[1], x[2]) for x in pairs if x[0] == "differ"}
        digs = {x[1] for x in pairs if x[0] == "digest"}
        for d in differ:
            if not str(d[0]).startswith("sector"):
                ctx.violation("mismatch-accepted:%s" % d[0], "read_file succeeds although the digest of the %s data differs from the stored checksum" % d[0], sp, e.trail(cur))
        if single and crc:
            want = "plain" if comp else ("whole+dec" if enc else "whole")
            seen.add((want, bool(comp), bool(enc)))
            if not any(a == want and b.startswith("crc1") for a, b in same):
                ctx.violation("unchecked:%s" % want, "read_file succeeds for a single-unit file with SECTOR_CRC (%s) without having compared the stored checksum with the digest of its content; compared: %s" %
                              (show_ff(ff), sorted(same) or "nothing"), sp, e.trail(cur))
        if "sector" in ev:
            want = "sector+dec" if enc else "sector"
            bad = {d for d in digs if d != want}
            if bad:
                ctx.violation("sector-digest:%s" % sorted(bad), "the sector checksum is compared with the digest of %s; the builder records that of the %s" % (sorted(bad), "decrypted stored sector" if enc else "stored sector"), sp, e.trail(cur))
    for s in sorted(seen):
        ctx.sample("read_file, single unit with checksum: compares the digest of '%s' (compressed=%s, encrypted=%s)" % s)
    ctx.count("reader_checked_layouts", len(seen))
    ctx.floor("reader_checked_layouts", 2)


class DW(Digests, W):
    """the writer"""

    def pair(self, ev, what, tg):
        """what in dig/app: match each digest with the sector that is appended next to it"""
        tg = "input" if tg == "raw" else tg
        other = "app" if what == "dig" else "dig"
        pend = [x for x in ev if isinstance(x, tuple) and x[0] == "pend"]
        ev = ev - set(pend)
        for x in pend:
            if x[1] == other:
                return ev | {("pair", tg if what == "dig" else x[2], x[2] if what == "dig" else tg)}
        return ev | {("pend", what, tg)}

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        seq, ev = cl
        if p in self.enc:
            r, v = self.operand_(env, args[next(i for i, l in enumerate(self.g.prog.fns[p]["locals"][1:]) if MUTBUF.match(l["ty"]))])
            out = super().call(env, cl, node, fr, t, args, p, k, facts) or [(None, cl)]
            if r is not None:
                return [(o[0], o[1], self.put(env, r, ("T", "encrypted"))) for o in out]
            return out
        if DIG.search(p):
            _, v = self.operand_(env, args[0])
            tg = v[1] if v is not None and v[0] == "T" else "input"
            return [(None, (seq, self.pair(ev | {("digest", tg)}, "dig", tg)))]
        if node.id in self.appends:
            _, v = self.operand_(env, args[1])
            tg = v[1] if v is not None and v[0] == "T" else "input"
            r = super().call(env, cl, node, fr, t, args, p, k, facts) or [(None, cl)]
            return [(o[0], (o[1][0], self.pair(o[1][1], "app", tg))) + tuple(o[2:]) for o in r]
        if VIEW.search(p):
            _, v = self.operand_(env, args[0]) if args else (None, None)
            if v is not None and v[0] == "T":
                return [(args[0], cl)]
        return super().call(env, cl, node, fr, t, args, p, k, facts)


def from_data(e, v):
    cs = content(e.I, v)
    return any(x in e.roots or any(x in content(e.I, r) for r in e.roots) for x in cs)


def writer(ctx):
    prog = ctx.prog
    ws = file_writers(prog)
    if len(ws) != 1:
        ctx.violation("writer", "expected one function of the builder that stores a file and returns its flags, found %s" % ws)
        return
    w = ws[0]
    g = writer_graph(prog, w)
    ctx.functions |= {fr.path for fr in g.frames}
    e = DW(g, prog)
    e.appends = {s.node for s in e.I.sites() if re.search(r"::(extend_from_slice|append|extend)$", s.fn) and len(s.vals) > 1 and from_data(e, s.vals[1])}
    e.start(((), frozenset()))
    sp = prog.fns[w]["span"]
    if e.exceeded:
        ctx.violation("undecided:writer", "too many paths in %s" % w, sp)
    sites = [s for s in e.I.sites() if DIG.search(s.fn)]
    for s in sites:
        if not from_data(e, s.vals[0]):
            ctx.violation("digest-source:%s" % show(s.vals[0])[:80], "the checksum is not taken of the file's data", g.span(s.node))
    kinds = set()
    for rv, ust, cur in e.rets:
        if flat_flags(rv) == "err":
            continue
        seq, ev = ust[2]
        ctx.count("writer_return_states")
        digs = {x for x in ev if isinstance(x, tuple) and x[0] == "digest"}
        if "crc" not in seq:
            continue
        multi = "tab" in seq
        if not digs:
            ctx.violation("no-digest", "%s writes a checksum that is not a digest" % w, sp, e.trail(cur))
        for (_, tg) in digs:
            kinds.add((multi, tg))
            if tg == "encrypted":
                ctx.violation("digest-encrypted:%s" % multi, "%s takes the checksum of encrypted data; the reader compares it after decryption" % w, sp, e.trail(cur))
            elif not multi and tg == "comp":
                ctx.violation("digest-single", "%s takes the single-unit checksum of the compressed data; the reader compares it with the content" % w, sp, e.trail(cur))
        if multi:
            for x in ev:
                if isinstance(x, tuple) and x[0] == "pair":
                    ctx.count("sector_digests_paired")
                    if x[1] != x[2]:
                        ctx.violation("digest-sector:%s" % x[1], "%s records the checksum of the %s sector but stores the %s one; the reader compares it with the sector as stored" %
                                      (w, SAY.get(x[1], x[1]), SAY.get(x[2], x[2])), sp, e.trail(cur))
    ctx.count("writer_digest_kinds", len(kinds))
    ctx.floor("writer_digest_kinds", 2)
    ctx.floor("sector_digests_paired", 1)


SAY = {"input": "uncompressed", "comp": "compressed"}
ATTR = "mopaq::special_files::attributes::FileAttributes"


class DV(Digests, Esp):
    """SFileVerifyFile.  client state: frozenset of events"""
    max_states = 400000

    def __init__(self, g, prog, adt):
        super().__init__(g)
        self.prog, self.adt = prog, adt
        self.rets = []

    def rvalue(self, env, fr, v):
        if v["r"] == "bin":
            a, b = self.operand(env, fr, v["a"]), self.operand(env, fr, v["b"])
            if v["op"] == "BitAnd":
                for x, y in ((a, b), (b, a)):
                    if y and y[0] == "i" and x == ("F",):
                        return ("fl", y[1])
            if v["op"] in ("Eq", "Ne") and ("F",) in (a, b) and ("i", 0) in (a, b):
                return ("flt", 0, "Ne" if v["op"] == "Eq" else "Eq")
            if v["op"] in ("Eq", "Ne") and a and a[0] == "fl" and b == ("i", 0):
                return ("flt", a[1], v["op"])
            if v["op"] in ("Eq", "Ne") and a and a[0] == "fl" and b == ("i", a[1]):
                return ("flt", a[1], "Ne" if v["op"] == "Eq" else "Eq")
        return super().rvalue(env, fr, v)

    def refine(self, env, n, fr, t, opl, lab):
        cur = env.get((fr.id, opl[0])) if opl is not None and len(opl) == 1 else None
        super().refine(env, n, fr, t, opl, lab)
        if cur is not None and cur[0] == "flt":
            truth = not (lab[0] == "sw" and lab[1] == 0)
            setb = truth if cur[2] == "Ne" else not truth
            self._pend = ("req", cur[1], setb)

    def on_edge(self, env, ust, node, lab, w):
        if self._pend:
            ev = self._pend
            self._pend = None
            if ev[0] == "req" and (("req", ev[1], not ev[2]) in ust or (ev[1] and ev[2] and ("req", 0, True) in ust)):
                return "STOP"
            ust = ust | {ev}
        return ust

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        d = t.get("dest")
        rty = (fr.fn["locals"][d[0]]["ty"] if len(d) == 1 or not d[1] else d[2]) if d is not None else ""
        if p == "mopaq::archive::Archive::read_file":
            return [(("v", RESULT, OK, (("T", "content"),)), ust | {"read"}), (("v", RESULT, ERR, (None,)), ust)]
        if p.startswith("mopaq::") and "FileAttributes" in rty and rty.startswith("core::option::Option<&"):
            names = [x[0] for x in self.prog.adts[self.adt]["variants"][0]["fields"]]
            outs = [(("v", OPTION, 0, ()), ust)]
            if ("attrs", False) not in ust:
                for c in (0, 1):
                    for m in (0, 1):
                        if ("has", "crc32", not c) in ust or ("has", "md5", not m) in ust:
                            continue
                        kids = [None] * len(names)
                        for nm, on in (("crc32", c), ("md5", m)):
                            kids[names.index(nm)] = ("v", OPTION, 1, (("E", nm),)) if on else ("v", OPTION, 0, ())
                        outs.append((("v", OPTION, 1, (("&", ("v", self.adt, 0, tuple(kids))),)), ust | {("attrs", True), ("has", "crc32", bool(c)), ("has", "md5", bool(m))}))
            outs[0] = (outs[0][0], ust | {("attrs", False)})
            if ("attrs", True) in ust:
                outs = outs[1:]
            return outs
        if p.endswith("::has_sector_crc"):
            if ("sector", True) in ust or ("sector", False) in ust:
                return [(("i", int(("sector", True) in ust)), ust)]
            return [(("i", 1), ust | {("sector", True)}), (("i", 0), ust | {("sector", False)})]
        x = self.digest_call(env, p, args, t)
        if x is not None:
            return [(o[0], ust | {o[1]} if o[1] else ust) + tuple(o[2:]) for o in x]
        return [(None, ust)]

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def verifier(ctx):
    prog = ctx.prog
    adts = [a for a in prog.adts if a.endswith("::FileAttributes")]
    vf = "storm::SFileVerifyFile"
    if not ctx.need(vf) or len(adts) != 1:
        return
    g = Graph(prog, vf, inline=lambda q, fr: q.startswith("storm::"))
    ctx.functions |= {fr.path for fr in g.frames}
    subject(ctx, g, vf, adts[0])
    w = DV(g, prog, adts[0])
    u32s = [i for i in range(1, prog.fns[vf]["argc"] + 1) if prog.fns[vf]["locals"][i]["ty"] == "u32"]
    if len(u32s) != 1:
        ctx.violation("verify-signature", "SFileVerifyFile does not take one u32 of flags", prog.fns[vf]["span"])
        return
    w.run([(g.rpo[0], {(g.frames[0].id, u32s[0]): ("F",)}, frozenset(), "in")])
    sp = prog.fns[vf]["span"]
    if w.exceeded:
        ctx.violation("undecided:verify", "too many paths in SFileVerifyFile", sp)
    masks = {"sector": 1, "crc32": 2, "md5": 4}
    n = 0
    for rv, ust, cur in w.rets:
        v = rv[1] if rv is not None and rv[0] == "i" else None
        if v == 0:
            continue
        n += 1
        ctx.count("verify_success_states")
        off = set() if ("req", 0, True) in ust else {x[1] for x in ust if isinstance(x, tuple) and x[0] == "req" and not x[2]}
        for x in ust:
            if isinstance(x, tuple) and x[0] == "differ":
                ctx.violation("verify-mismatch:%s" % x[2], "SFileVerifyFile can return true although the %s differs" % x[2], sp, w.trail(cur))
        for nm in ("crc32", "md5"):
            if masks[nm] in off or ("has", nm, True) not in ust:
                continue
            if ("same", "content", nm) not in ust:
                ctx.violation("verify-unchecked:%s" % nm, "SFileVerifyFile can return true for a file whose attributes record a %s, requested, without having compared it with the digest of the file's content" % nm, sp, w.trail(cur))
        if ("attrs", True) not in ust and ("attrs", False) not in ust and not ({2, 4} <= off):
            ctx.violation("verify-attrs", "SFileVerifyFile can return true without having looked at the file's attributes", sp, w.trail(cur))
        if 1 not in off and ("sector", False) not in ust and "read" not in ust:
            ctx.violation("verify-sector", "SFileVerifyFile can return true without having read a file whose sector checksums were to be verified", sp, w.trail(cur))
        if v is None:
            ctx.violation("verify-unknown", "SFileVerifyFile returns a value the analysis cannot follow", sp, w.trail(cur))
    ctx.floor("verify_success_states", 2)


def subject(ctx, g, vf, adt):
    """everything read and compared is about the file the caller named"""
    I = Interp(g)
    fn = ctx.prog.fns[vf]
    name = [mk("param", j, fn["locals"][j].get("n") or "") for j in range(1, fn["argc"] + 1) if fn["locals"][j]["ty"].startswith("*const")]
    infos = set()
    sites = list(I.sites())
    for s in sites:
        if s.fn in ("mopaq::archive::Archive::read_file", "mopaq::archive::Archive::find_file"):
            ctx.count("verify_lookups")
            v = I.simp(s.vals[1])
            if not name or not any(x in name for x in subterms(v)) or any(x.op in ("call", "pure") and re.search(r"replace|trim|to_(upper|lower|ascii)|strip_|split|\bnext\b|file_name", str(x.a[0])) for x in subterms(v)):
                ctx.violation("verify-subject", "SFileVerifyFile passes %s to %s, not the name it was asked about" % (show(v)[:80], s.fn.rsplit("::", 1)[-1]), s.sp)
    for s in sites:
        if not s.fn.startswith("mopaq::") or not s.fn.endswith("::get_file_attributes") or len(s.vals) < 2:
            continue
        ctx.count("verify_lookups")
        v = I.simp(s.vals[1])
        while v.op in ("cast", "&", "*"):
            v = v.a[-1] if v.op == "cast" else v.a[0]
        fs = {str(x.a[1]) for x in subterms(v) if x.op == "f" and "FileInfo." in str(x.a[1])}
        if v.op == "f" and "FileInfo." in str(v.a[1]) and not str(v.a[1]).endswith("FileInfo.block_index"):
            ctx.violation("verify-attributes-of", "SFileVerifyFile takes the attributes recorded for %s, not those of the named file's block" % show(v)[:100], s.sp)
        elif v.op != "f" and not any(x.endswith("block_index") for x in fs) or v.op == "lin":
            ctx.violation("verify-attributes-of", "SFileVerifyFile takes the attributes recorded for %s, not those of the named file's block" % show(v)[:100], s.sp)


def run(ctx):
    reader(ctx)
    writer(ctx)
    verifier(ctx)
