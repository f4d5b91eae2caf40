import re
from common import *
from filefmt import *
import sectors

RULE = ("Path-sensitive typestate with branch facts over the builder's store-one-file function and over Archive::read_file (helpers inlined; cipher and codec opaque). "
        "Writer, at every successful return: the returned flags say exactly what was written: SINGLE_UNIT iff no sector table, COMPRESS iff a sector table or compressed bytes were written, "
        "ENCRYPTED iff the data (and the sector table, if any) went through the cipher before being written, SECTOR_CRC iff a checksum was written; the parts come in the order table, "
        "checksums, data (data, checksum for single units).  Reader, at every successful return: the sector table is read iff the flags say not single unit and compressed, "
        "otherwise the stored bytes as a whole; decryption happens iff ENCRYPTED, the single-unit checksum is read iff SECTOR_CRC, whole data is decompressed iff compressed.  "
        "The block entry records these flags plus EXISTS, the stored size and the original size.  Sector arithmetic (polynomials over the file size, the sector size, the number of sectors and the sector's index, "
        "both sides): number of table entries, what each offset counts, extent and expected size of each sector, which sectors are taken as stored; every round of the sector loops adds its sector exactly once, and "
        "success comes only after the last one.")

READ = "mopaq::archive::Archive::read_file"


class W(FactEsp):
    force_loops = True
    max_states = 600000

    def __init__(self, g, prog):
        super().__init__(g)
        self.enc, self.comp = encryptors(prog), compressors(prog)
        roots = set()
        for s in self.I.sites():
            if s.fn in self.comp:
                t = s.vals[0]
                while t.op in ("&", "*", "slice") and hasattr(t.a[0], "op") and t.op != "*":
                    t = t.a[0]
                while t.op == "*":
                    t = t.a[0]
                roots.add(t)
        self.roots = roots
        self.kinds = {}
        for s in self.I.sites():
            if re.search(r"Write::write(_all)?$", s.fn) or s.fn in self.enc:
                i = 1
                if s.fn in self.enc:
                    i = next(j for j, l in enumerate(prog.fns[s.fn]["locals"][1:]) if MUTBUF.match(l["ty"]))
                self.kinds[s.node] = kind_of(self.I, s.vals[i], lambda x: x in roots)
        self.rets = []

    def relevant(self, c):
        return invariant(c) and c.op in ("eq", "lt", "not") or c.op in ("*", "f")

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        seq, ev = cl
        if p in self.comp:
            return [(("v", RESULT, OK, (("T", "comp"),)), cl), (("v", RESULT, OK, (("T", "raw"),)), cl)]   # failures: property C03
        if re.search(r"Write::write(_all)?$", p) and node.id in self.kinds:
            kd = self.kinds[node.id]
            tag = self.resolve(env, args[1] if len(args) > 1 else None)
            ev2 = ev
            if tag is not None and tag[0] == "T" and tag[1] == "comp":
                ev2 = ev | {"comp"}
            if not seq or seq[-1] != kd:
                seq = seq + (kd,)
            if len(seq) > 6:
                return [(None, "STOP")]
            return [(("v", RESULT, OK, (None,)), (seq, ev2))]
        if p in self.enc and node.id in self.kinds:
            kd = self.kinds[node.id]
            return [(None, (seq, ev | {("late-enc:" if kd in seq else "enc:") + kd}))]
        if re.search(r"PartialEq.*::(ne|eq)$", p):
            for a in args:
                a = self.resolve(env, a)
                if a is not None and a[0] == "T":
                    return [(("i", int((a[1] == "comp") == p.endswith("ne"))), cl)]
        tags = [self.resolve(env, a) for a in args]
        if re.search(r"::len$", p) and tags and tags[0] is not None and tags[0][0] == "T":
            return [(("L", tags[0][1], 0), cl)]
        if re.search(r"::(extend_from_slice|append|extend|push)$", p) and len(tags) > 1 and tags[1] is not None and tags[1] == ("T", "comp"):
            return [(None, (seq, ev | {"comp"}))]
        if re.search(r"::(deref|deref_mut|as_ref|as_slice|to_vec|clone|to_owned|into|from|as_mut_slice|into_iter|borrow|as_mut|index)$", p) and tags and tags[0] is not None and tags[0][0] == "T":
            return [(tags[0], cl)]
        return None

    def rvalue(self, env, fr, v):
        # lengths of a codec result: raw means unchanged, compressed means strictly shorter (the codec's contract)
        if v["r"] == "bin":
            a, b = self.operand(env, fr, v["a"]), self.operand(env, fr, v["b"])
            op = v["op"]
            if a and a[0] == "L" and b and b[0] == "i" and op in ("Add", "AddWithOverflow", "AddUnchecked"):
                r = ("L", a[1], a[2] + b[1])
                return ("t", (r, None)) if op == "AddWithOverflow" else r
            if b and b[0] == "L" and (a is None or a[0] != "L"):
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            if a and a[0] == "L" and b is None and op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                if a[1] == "raw" and a[2] >= 0:
                    z = a[2] == 0
                    return ("i", int({"Lt": False, "Le": z, "Gt": not z, "Ge": True, "Eq": z, "Ne": not z}[op]))
                if a[1] == "comp" and a[2] == 0:
                    return ("i", int(op in ("Lt", "Le", "Ne")))
                return None
        return super().rvalue(env, fr, v)

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def flat_flags(rv):
    if rv is None or rv[0] != "v" or rv[1] != RESULT:
        return "?"
    if rv[2] == ERR:
        return "err"
    k = rv[3][0] if rv[3] else None
    kids = k[1] if k is not None and k[0] == "t" else (k,)
    ints = [x[1] for x in kids if x is not None and x[0] == "i"]
    return ints[-1] if ints else "?"


def bits(f):
    n = [(F_SINGLE, "SINGLE_UNIT"), (F_COMPRESS, "COMPRESS"), (F_ENCRYPTED, "ENCRYPTED"), (F_FIX, "FIX_KEY"), (F_CRC, "SECTOR_CRC"), (F_IMPLODE, "IMPLODE")]
    return "|".join(x for b, x in n if f & b) or "none"


def writer(ctx):
    prog = ctx.prog
    ws = file_writers(prog)
    if len(ws) != 1:
        ctx.violation("writer", "expected one function of the builder that stores a file and returns its flags, found %s" % ws)
        return
    w = ws[0]
    g = writer_graph(prog, w)
    ctx.functions |= {fr.path for fr in g.frames}
    e = W(g, prog)
    if not e.roots:
        ctx.violation("writer-compress", "%s never compresses file data" % w, prog.fns[w]["span"])
        return
    e.start(((), frozenset()))
    sp = prog.fns[w]["span"]
    if e.exceeded:
        ctx.violation("undecided:writer", "too many paths in %s" % w, sp)
    combos = set()
    for rv, ust, cur in e.rets:
        f = flat_flags(rv)
        if f == "err":
            continue
        seq, ev = ust[2]
        ctx.count("writer_return_states")
        if f == "?":
            ctx.violation("flags-unknown", "%s returns flags the analysis cannot follow" % w, sp, e.trail(cur))
            continue
        multi = "tab" in seq
        combos.add((f, seq, tuple(sorted(ev))))
        say = "%s returns flags %s after writing %s" % (w, bits(f), "+".join(seq) or "nothing")
        want = (("tab",) if multi else ()) + ((("crc",) if "crc" in seq else ()) + ("data",) if multi else ("data",) + (("crc",) if "crc" in seq else ()))
        if seq != want:
            ctx.violation("order:%s" % "-".join(seq), "%s; expected %s" % (say, "+".join(want)), sp, e.trail(cur))
        if bool(f & F_SINGLE) == multi:
            ctx.violation("single:%s" % multi, "%s: SINGLE_UNIT does not match" % say, sp, e.trail(cur))
        if bool(f & F_CRC) != ("crc" in seq):
            ctx.violation("crc:%s" % ("crc" in seq), "%s: SECTOR_CRC does not match" % say, sp, e.trail(cur))
        comp = multi or "comp" in ev
        if bool(f & F_COMPRESS) != comp:
            ctx.violation("compress:%s:%s" % (multi, "comp" in ev), "%s (%s data): COMPRESS does not match; the reader would take %s" %
                          (say, "compressed" if "comp" in ev else "raw", "the sector table for content" if multi else "stored bytes the wrong way"), sp, e.trail(cur))
        if f & F_IMPLODE:
            ctx.violation("implode", "%s: IMPLODE is not what is written" % say, sp, e.trail(cur))
        encd = {x.split(":")[1] for x in ev if x.startswith("enc:")}
        late = [x for x in ev if x.startswith("late-enc")]
        need = {"data"} | ({"tab"} if multi else set())
        if late:
            ctx.violation("late-encrypt", "%s: encrypts %s after it was written" % (say, late), sp, e.trail(cur))
        if f & F_ENCRYPTED and encd != need or (not f & F_ENCRYPTED and encd):
            ctx.violation("encrypt:%s:%s" % (bool(f & F_ENCRYPTED), ",".join(sorted(encd))), "%s: ENCRYPTED is %s but encrypted parts are %s" %
                          (say, "set" if f & F_ENCRYPTED else "not set", sorted(encd) or "none"), sp, e.trail(cur))
        if f & F_FIX and not f & F_ENCRYPTED:
            ctx.violation("fixkey", "%s: FIX_KEY without ENCRYPTED" % say, sp, e.trail(cur))
    for c in sorted(combos)[:8]:
        ctx.sample("flags %s: wrote %s, %s" % (bits(c[0]), "+".join(c[1]), ",".join(c[2])))
    ctx.count("writer_layouts", len(combos))
    ctx.floor("writer_layouts", 8)
    sectors.writer(ctx, e)
    return w


class R(FactEsp):
    force_loops = True
    max_states = 600000

    def __init__(self, g, prog):
        super().__init__(g)
        self.dec, self.decomp = decryptors(prog), decompressors(prog)
        self.ioc = {}
        for s in self.I.sites():
            if re.search(r"::read_exact$|::read_to_end$|::read$", s.fn) and reads_archive(self.I, s.vals[0]):
                self.ioc[s.node] = self.classify(s)
        self.rets = []
        # the values of the flags tests
        self.crc_nodes = set()

    def classify(self, s):
        b = s.vals[1]
        while b.op in ("&", "*"):
            b = b.a[0]
        n = self.I.len_of(b)
        names = {str(x.a[1]) for x in subterms(n) if x.op == "f"}
        if any(x.op == "idx" for x in subterms(n)):
            return "sector"
        if any("compressed_size" in x for x in names):
            return "whole"
        if is_c(n, 4):
            return "crc1"
        if any("file_size" in x for x in names):
            c0 = n.a[-1] if n.op == "lin" else None
            return "crctab" if is_c(add(n, C(0))) or not has_const(n) else "tab"
        if any(x.op == "out" and self.ioc.get(x.a[0]) == "tab" for x in content(self.I, n)):
            return "sector"
        if n.op == "lin" and any(x.op == "next" for x in subterms(n)) and any(x.op == "out" and self.ioc.get(x.a[0]) == "tab" for x in content_all(self.I, n)):
            return "sector"
        return "?%s" % show(n)[:60]

    def relevant(self, c):
        if c.op == "eq" and any(is_c(x, 0) for x in c.a) and "FileInfo.file_size" in deepshow(c) and "FileInfo.flags" not in deepshow(c) and invariant(c, ("find_file", "FileInfo")):
            return True
        return c.op == "eq" and "FileInfo.flags" in deepshow(c) and invariant(c, ("find_file", "FileInfo")) or False

    def call(self, env, cl, node, fr, t, args, p, k, facts):
        if node.id in self.ioc:
            return [(("v", RESULT, OK, (None,)), cl | {self.ioc[node.id]})]
        if p in self.dec:
            return [(None, cl | {"dec:" + self.dkind(node.id)})]
        if p in self.decomp:
            kd = "sector" if "sector" in cl else "whole"
            return [(("v", RESULT, OK, (("T", "plain"),)), cl | {"decomp:" + kd}), (("v", RESULT, ERR, (None,)), cl)]
        tags = [self.resolve(env, a) for a in args]
        if re.search(r"::(deref|as_ref|as_slice|to_vec|clone|to_owned|into|from|branch|index)$", p) and tags and tags[0] is not None and tags[0][0] == "T":
            return [(tags[0], cl)]
        return None

    def dkind(self, nid):
        for s in self.I.sites():
            if s.node == nid:
                b = s.vals[0]
                cs = content(self.I, b, ("len", "lt", "eq"))
                best = None
                for x in cs:
                    if x.op == "out" and x.a[0] in self.ioc:
                        best = self.ioc[x.a[0]] if best is None else best
                # the buffer itself is what the read filled
                return direct(self.I, b, self.ioc) or best or "?"
        return "?"

    def on_return(self, env, ust, node, rv):
        self.rets.append((rv, ust, self.cur))


def content_all(I, t):
    seen, work = set(), [t]
    while work and len(seen) < 4000:
        x = work.pop()
        if x in seen or not hasattr(x, "op"):
            continue
        seen.add(x)
        if x.op == "phi":
            work.extend(I.phi_in.get(x, {}).values())
        for y in x.a:
            if isinstance(y, tuple):
                work.extend(flat(y))
            elif hasattr(y, "op"):
                work.append(y)
    return seen


def direct(I, b, ioc):
    seen = set()
    work = [b]
    while work:
        x = work.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("&", "*", "slice"):
            work.append(x.a[0])
        elif x.op == "phi":
            work.extend(I.phi_in.get(x, {}).values())
        elif x.op == "out":
            if x.a[0] in ioc:
                return ioc[x.a[0]]
            work.extend(y for y in flat(x.a) if hasattr(y, "op"))
    return None


def has_const(n):
    return n.op == "lin" and any(True for _ in [0] if const_part(n) != 0)


def const_part(n):
    z = n
    from terms import lin_parts
    return lin_parts(n)[0]


def reads_archive(I, t):
    return any(x.op == "f" and "Archive.reader" in str(x.a[1]) or x.op == "phi" and "Archive.reader" in str(x.a) for x in content_io(I, t))


def content_io(I, t):
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi":
            work.extend(I.phi_in.get(x, {}).values())
        elif x.op == "out":
            work.append(x.a[4][x.a[1]] if len(x.a) > 4 and isinstance(x.a[4], tuple) and x.a[1] < len(x.a[4]) else mk("unk", 0))
        elif x.op in ("&", "*", "f", "ref"):
            work.extend(y for y in x.a[:1] if hasattr(y, "op"))
    return seen


def deepshow(t):
    return " ".join(str(x.a[1]) for x in subterms(t) if x.op == "f" and len(x.a) > 1)


def flag_facts(facts):
    out = {}
    for c, pol in facts:
        # eq(0, and(flags, mask))
        if c.op == "is":
            continue
        m = [x for x in c.a if x.op in ("and", "bin")]
        for x in subterms(c):
            if x.op == "and":
                k = [y.a[0] for y in x.a if is_c(y)]
                if k:
                    out[k[0]] = not pol
    return out


def reader(ctx):
    prog = ctx.prog
    if not ctx.need(READ):
        return
    g = reader_graph(prog, READ)
    ctx.functions |= {fr.path for fr in g.frames}
    e = R(g, prog)
    e.start(frozenset())
    sp = prog.fns[READ]["span"]
    if e.exceeded:
        ctx.violation("undecided:reader", "too many paths in read_file", sp)
    unk = {v for v in e.ioc.values() if v.startswith("?")}
    if unk:
        ctx.violation("reader-read", "read_file reads %s bytes: a read the rule does not know" % sorted(unk), sp)
    # a file stored as one unit is read whole
    for s in e.I.sites():
        if e.ioc.get(s.node) == "whole":
            b = s.vals[1]
            while b.op in ("&", "*"):
                b = b.a[0]
            for n in sectors.alternatives(e.I, e.I.len_of(b)):
                ctx.count("whole_reads")
                n = sectors.bare(n)
                if n.op in ("min", "max", "lin", "div", "rem", "c") or n.op in ("call", "pure") and re.search(r"::(min|max|clamp|saturating_sub|wrapping_sub)$", str(n.a[0])):
                    ctx.violation("reader-length", "read_file reads %s bytes of a file stored as one unit; expected its stored size" % show(n)[:120], g.span(s.node))
    combos = set()
    for rv, ust, cur in e.rets:
        if rv is not None and rv[0] == "v" and rv[1] == RESULT and rv[2] == ERR:
            continue
        ff = flag_facts(ust[0])
        ev = ust[2]
        ctx.count("reader_return_states")
        combos.add((tuple(sorted(ff.items())), tuple(sorted(ev))))
        comp = ff.get(F_COMPRESS | F_IMPLODE)
        single, enc, crc = ff.get(F_SINGLE), ff.get(F_ENCRYPTED), ff.get(F_CRC)
        say = "read_file succeeds having read %s" % ", ".join(sorted(ev))
        if "tab" in ev or "sector" in ev:
            if not (single is False and comp is True) or "whole" in ev:
                ctx.violation("reader-table", "%s though the flags tested are %s: only compressed files that are not single units have a sector table" % (say, show_ff(ff)), sp, e.trail(cur))
            if not {"tab", "sector"} <= ev:
                ctx.violation("reader-parts", "%s: table and sectors both expected" % say, sp, e.trail(cur))
        elif "whole" in ev:
            if not (single is True or comp is False):
                ctx.violation("reader-whole", "%s though the flags tested are %s: files with a sector table must be read by sector" % (say, show_ff(ff)), sp, e.trail(cur))
        elif empty_file(e.I, ust[0]):
            continue
        else:
            ctx.violation("reader-nothing", "%s: nothing of the file" % say, sp, e.trail(cur))
        need = {"dec:tab", "dec:sector"} if "tab" in ev else {"dec:whole"}
        got = {x for x in ev if x.startswith("dec:")}
        if enc is None or (enc and got != need) or (not enc and got):
            ctx.violation("reader-decrypt:%s" % enc, "%s; ENCRYPTED is %s, decrypted parts: %s" % (say, {None: "not tested", True: "set", False: "clear"}[enc], sorted(got)), sp, e.trail(cur))
        if "whole" in ev:
            if comp is None or comp != ("decomp:whole" in ev):
                ctx.violation("reader-decompress:%s" % comp, "%s; compressed flag is %s, decompressed: %s" % (say, comp, "decomp:whole" in ev), sp, e.trail(cur))
            if single is True and (crc is None or crc != ("crc1" in ev)):
                ctx.violation("reader-crc:%s" % crc, "%s; SECTOR_CRC is %s, checksum read: %s" % (say, crc, "crc1" in ev), sp, e.trail(cur))
            if single is not True and "crc1" in ev:
                ctx.violation("reader-crc:nosingle", "%s: a checksum is read for a file that is not a single unit" % say, sp, e.trail(cur))
    ctx.count("reader_layouts", len(combos))
    for c in sorted(combos)[:4]:
        ctx.sample("read_file with %s: %s" % (show_ff(dict(c[0])), ", ".join(c[1])))
    ctx.floor("reader_layouts", 6)
    sectors.reader(ctx, e)


def empty_file(I, facts):
    """the file is known to have no content"""
    A = sectors.Arith(I, lambda t: t.op == "f" and str(t.a[1]) in ("FileInfo.file_size", "BlockEntry.file_size"), lambda t: t.op == "shl" and is_c(t.a[0], 512))
    return any(p and c.op == "eq" and any(is_c(x, 0) for x in c.a) and any(A.poly(x) in (sectors.FS, sectors.N) for x in c.a) for c, p in facts)


def show_ff(ff):
    return ", ".join("%s=%s" % (bits(k) if bits(k) != "none" else hex(k), v) for k, v in sorted(ff.items())) or "none"


def run(ctx):
    writer(ctx)
    reader(ctx)
    record(ctx)


def record(ctx):
    """the block entry describes what the store-one-file function reported"""
    from buildmodel import build_model, aggs, fields, uncast, deref
    prog = ctx.prog
    g, I, ws, enc = build_model(ctx)
    adt = "mopaq::tables::block::BlockEntry"
    names = fields(prog, adt)
    wsites = {s.node: s for s in I.sites() if s.fn in ws}
    n = 0
    for nid, fr, t, st, sp in aggs(I, adt):
        vals = dict(zip(names, t.a[3]))
        if all(is_c(v) for v in vals.values()):
            continue
        n += 1
        fl = vals["flags"]
        key = fr.path
        calls = [x for x in subterms(fl) if x.op == "call" and x.a[0] in ws]
        parts = list(fl.a) if fl.op == "or" else [fl]
        consts = sum(x.a[0] for x in parts if is_c(x))
        rest = [x for x in parts if not is_c(x)]
        if len(calls) != 1 or len(rest) != 1 or rest[0].op != "f" or consts != F_EXISTS:
            ctx.violation("entry-flags:" + key, "%s records flags %s; expected the stored file's flags plus EXISTS" % (fr.path, show(fl)[:120]), sp)
            continue
        call = calls[0]
        s = next((x for x in wsites.values() if x.res is call or call in subterms(x.res)), None)
        cs = uncast(vals["compressed_size"])
        if not (cs.op == "f" and cs.a[0] is rest[0].a[0] and cs is not rest[0]):
            ctx.violation("entry-size:" + key, "%s records stored size %s; expected the size reported for the stored file" % (fr.path, show(cs)[:120]), sp)
        if s is None:
            ctx.violation("entry-call:" + key, "the stored file behind %s's block entry was not found" % fr.path, sp)
            continue
        flatargs = set()
        for a in s.vals:
            for x in subterms(I.dv(s.st, a)):
                flatargs.add(x)
                if x.op == "ref":
                    flatargs.add(I.dv(s.st, x))
        fs = uncast(vals["file_size"])
        if fs.op != "len" or deref(fs.a[0]) not in {deref(x) for x in flatargs}:
            ctx.violation("entry-length:" + key, "%s records original size %s; expected the length of the stored data" % (fr.path, show(fs)[:120]), sp)
        fp = uncast(vals["file_pos"])
        if fp not in flatargs:
            ctx.violation("entry-pos:" + key, "%s records position %s; expected the position the file was stored at" % (fr.path, show(fp)[:120]), sp)
        else:
            pos = [x for x in subterms(fp) if x.op == "call" and "stream_position" in str(x.a[0])]
            if len(pos) != 1:
                ctx.violation("entry-pos:" + key, "%s records position %s, which is not the writer's position" % (fr.path, show(fp)[:120]), sp)
            else:
                pn = [x.node for x in I.sites() if "stream_position" in x.fn and x.node in pos[0].a[:3]]
                wr = {x.node for x in I.sites() if re.search(r"Write::write|Seek::seek$", x.fn)}
                between = g.forward(pn[:1], stop=lambda i: i == s.node) & wr
                between = {b for b in between if s.node in g.forward([b], stop=lambda i: i in pn)}
                if between:
                    ctx.violation("entry-pos-stale:" + key, "the writer moves between taking the file's position and storing it", g.span(sorted(between)[0]))
        ctx.sample("%s: BlockEntry{pos=%s, flags=%s}" % (fr.path, show(fp)[:50], show(fl)[-40:]))
    ctx.count("block_entries", n)
    ctx.floor("block_entries", 1)
