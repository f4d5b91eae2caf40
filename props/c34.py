import re
from common import *
from filefmt import *
from terms import T
import sectors
from factesp import natural_loops
from c27 import fn_of, args_of

RULE = ("Partial evaluation of one round of the hashing loops (hash_string, jenkins_hash) for each of the 256 byte values, with the running hash left symbolic: two byte values lead to the same "
        "next state if and only if they are equal after ASCII case folding and '/' -> '\\\\'; every round takes the next byte of the name, no byte is passed over; the cipher table is the published one.")

HASHES = ["mopaq::crypto::hash::hash_string", "mopaq::crypto::hash::jenkins_hash"]
SKIPS = r"::(skip|take|step_by|filter|take_while|skip_while|filter_map|trim\w*|strip_\w+|split\w*|rsplit\w*|map_while|dedup|nth|last|get)$"
MASK = {"u8": 255, "u16": 65535, "u32": 2**32 - 1, "u64": 2**64 - 1, "usize": 2**64 - 1, "i32": 2**32 - 1, "i64": 2**64 - 1}


class Stuck(Exception):
    pass


def fold(b):
    if b == 0x2F:
        return 0x5C
    return b - 32 if 97 <= b <= 122 else b


def cipher_table():
    t, seed = [0] * 0x500, 0x100001
    for i in range(256):
        for j in range(5):
            seed = (seed * 125 + 3) % 0x2AAAAB
            a = (seed & 0xFFFF) << 16
            seed = (seed * 125 + 3) % 0x2AAAAB
            t[i + j * 256] = a | (seed & 0xFFFF)
    return t


class PE:
    """partial evaluation of a term for a byte value, along a path"""

    def __init__(self, I, isbyte, b, path):
        self.I, self.isbyte, self.b = I, isbyte, b
        self.pred = {w: u for u, w in zip(path, path[1:])}
        self.head = path[0]
        self.memo = {}

    def ev(self, t):
        if not isinstance(t, T):
            return tuple(self.ev(x) for x in t) if isinstance(t, tuple) else t
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = ("cycle",)
        r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        o, a = t.op, t.a
        if self.isbyte(t):
            return self.b
        if o == "c":
            return a[0]
        if o == "phi":
            if a[0] != self.head and a[0] in self.pred:
                for (u, _), v in self.I.phi_in.get(t, {}).items():
                    if u == self.pred[a[0]]:
                        return self.ev(v)
            return ("phi", t.id)
        if o == "bytes":
            return ("bytes", t.id, a[0])
        if o == "lin":
            c, d = a[0], {}
            for x, k in a[1]:
                v = self.ev(x)
                if isinstance(v, int):
                    c += k * v
                else:
                    d[v] = d.get(v, 0) + k
            return c if not d else ("lin", c, tuple(sorted(d.items(), key=repr)))
        if o == "idx":
            base, i = self.ev(a[0]), self.ev(a[1])
            if isinstance(i, int) and isinstance(base, tuple) and base[0] == "bytes" and 0 <= i < len(base[2]):
                e = base[2][i]
                return e if isinstance(e, int) else ("s", repr(e))
            return ("idx", base[:2] if isinstance(base, tuple) and base[0] == "bytes" else base, i)
        if o == "cast":
            v = self.ev(a[1])
            if isinstance(v, int):
                return v & MASK.get(str(a[0]), 2**64 - 1)
            return ("cast", str(a[0]), v)
        if o in ("&", "*", "der"):
            v = self.ev(a[0])
            return v if isinstance(v, (int, bool)) else (o, v)
        vs = tuple(self.ev(x) for x in a)
        if o in ("xor", "and", "or", "shl", "shr", "rem", "div", "eq", "lt", "not", "mul", "min", "max"):
            if all(isinstance(v, int) for v in vs):
                return const(o, vs)
            return (o,) + (tuple(sorted(vs, key=repr)) if o in ("xor", "and", "or", "eq", "mul") else vs)
        if o in ("call", "pure"):
            fn = t.a[0]
            av = vs[-1]
            av = [x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] in ("&", "*") else x for x in av] if isinstance(av, tuple) else []
            if av and all(isinstance(v, int) for v in av):
                n = fn.rsplit("::", 1)[-1]
                x = av[0]
                if n == "to_ascii_uppercase":
                    return x - 32 if 97 <= x <= 122 else x
                if n == "to_ascii_lowercase":
                    return x + 32 if 65 <= x <= 90 else x
                if n in ("is_ascii_lowercase", "is_ascii_uppercase", "is_ascii_alphabetic", "is_ascii"):
                    return {"is_ascii_lowercase": 97 <= x <= 122, "is_ascii_uppercase": 65 <= x <= 90, "is_ascii_alphabetic": 97 <= (x | 32) <= 122, "is_ascii": x < 128}[n]
                if n in ("from", "into", "clone"):
                    return x
            if any(hasbyte(v, self) for v in av):
                raise Stuck(fn)
        return (o,) + tuple(str(x) if not isinstance(x, (int, tuple)) else x for x in vs)


def hasbyte(v, pe):
    return isinstance(v, int) and not isinstance(v, bool) and v == pe.b


def const(o, v):
    if o == "xor":
        return v[0] ^ v[1]
    if o == "and":
        return v[0] & v[1]
    if o == "or":
        return v[0] | v[1]
    if o == "shl":
        return v[0] << min(v[1], 64)
    if o == "shr":
        return v[0] >> min(v[1], 64)
    if o == "rem":
        return v[0] % v[1] if v[1] else 0
    if o == "div":
        return v[0] // v[1] if v[1] else 0
    if o == "eq":
        return v[0] == v[1]
    if o == "lt":
        return v[0] < v[1]
    if o == "not":
        return not v[0] if isinstance(v[0], bool) or v[0] in (0, 1) else ~v[0]
    if o == "mul":
        return v[0] * v[1]
    return min(v) if o == "min" else max(v)


def rounds(I, g, h, body, cap=4000):
    """paths through one round of the loop, back to its head: [(nodes, facts)]"""
    out, n = [], 0
    work = [((h,), ())]
    while work:
        path, fs = work.pop()
        u = path[-1]
        n += 1
        if n > 200000 or len(out) > cap:
            return None
        for lab, w in g.nodes[u].succ:
            if w not in body or u not in I.instate:
                continue
            nf = I.new_facts(u, lab)
            if nf is None:
                continue
            f2 = fs + tuple(nf)
            if w == h:
                out.append((path, f2))
            elif w not in path:
                work.append((path + (w,), f2))
    return out


def one(ctx, f):
    prog = ctx.prog
    if not ctx.need(f):
        return
    g = Graph(prog, f, inline=lambda q, fr: q.startswith("mopaq::crypto"))
    I = Interp(g)
    sp = prog.fns[f]["span"]
    ctx.functions |= {fr.path for fr in g.frames}
    for s in I.sites():
        if re.search(SKIPS, s.fn):
            ctx.violation("bytes:" + f, "%s does not hash every byte of the name: %s" % (f, s.fn), g.span(s.node))
        if re.search(r"::(break|rev)$", s.fn):
            ctx.violation("bytes:" + f, "%s hashes the bytes in another order: %s" % (f, s.fn), g.span(s.node))
    loops = natural_loops(g)
    name = I.simp(mk("param", 0, None))
    done = False
    tables = set()
    for h, body in loops.items():
        st = [(p, inc) for p, inc in I.phi_in.items() if p.a[0] == h]

        def isbyte(t, nx={}):
            t0 = t
            while t0.op in ("*", "der", "&"):
                t0 = t0.a[0]
            if t0.op == "f" and t0.a[0].op == "dc" and t0.a[0].a[0].op == "next":
                return True
            return t0.op == "idx" and any(x.op == "param" for x in subterms(t0.a[0])) and not any(x.op == "bytes" for x in subterms(t0.a[0]))
        rs = rounds(I, g, h, body)
        if rs is None:
            ctx.count("undecided_loops")
            continue
        upd = []
        for p, inc in st:
            back = {u: v for (u, _), v in inc.items() if u in body}
            vs = set(back.values())
            if vs == {p}:
                continue
            upd.append((p, back))
        hashed = [p for p, back in upd if any(isbyte(x) for v in back.values() for x in reach(I, v))]
        if not hashed:
            continue
        if any(x.op == "next" and any(y.op in ("call", "pure") and re.search(r"::(map|inspect|scan|flat_map|zip|chain|copied_by)$", y.a[0]) or y.op in ("map", "scan", "flat_map") for y in subterms(x)) for p, back in upd for v in back.values() for x in reach(I, v)):
            ctx.count("undecided_loops")
            continue
        done = True
        classes = {}
        try:
            for b in range(256):
                res = set()
                for path, fs in rs:
                    pe = PE(I, isbyte, b, path)
                    ok = True
                    for c, pol in fs:
                        v = pe.ev(c)
                        if isinstance(v, int) and bool(v) != pol:
                            ok = False
                            break
                    if not ok:
                        continue
                    key = []
                    for p in sorted(hashed, key=lambda x: x.id):
                        for (u, _), v in I.phi_in[p].items():
                            if u == path[-1]:
                                key.append(repr(pe.ev(v)))
                    res.add(tuple(key))
                    if key == [repr(("phi", p.id)) for p in sorted(hashed, key=lambda x: x.id)]:
                        ctx.violation("bytes:" + f, "%s passes over %s" % (f, chr_(b)), sp)
                if not res:
                    ctx.violation("stops:" + f, "%s stops hashing at %s" % (f, chr_(b)), sp)
                classes.setdefault(frozenset(res), []).append(b)
                ctx.count("byte_values")
        except Stuck as e:
            ctx.count("undecided_loops")
            continue
        ctx.count("hash_rounds", len(rs))
        of = {b: k for k, bs in classes.items() for b in bs}
        for b in range(256):
            if of[b] != of[fold(b)]:
                ctx.violation("fold:" + f, "%s gives %s and %s different hashes; names differing only in case or slash direction must hash alike" % (f, chr_(b), chr_(fold(b))), sp)
                break
        for k, bs in classes.items():
            if len({fold(b) for b in bs}) > 1:
                x = [b for b in bs if fold(b) != fold(bs[0])][0]
                ctx.violation("conflates:" + f, "%s does not distinguish %s from %s" % (f, chr_(bs[0]), chr_(x)), sp)
                break
        for p in hashed:
            for v in I.phi_in[p].values():
                for x in subterms(v):
                    if x.op == "bytes" and len(x.a[0]) == 0x500:
                        tables.add(x)
    if not done:
        ctx.count("undecided_hashes")
    for x in tables:
        ctx.count("cipher_tables")
        if list(x.a[0]) != cipher_table():
            i = [i for i, (u, v) in enumerate(zip(x.a[0], cipher_table())) if u != v][0]
            ctx.violation("table:" + f, "%s uses a cipher table whose entry 0x%x is not the published one" % (f, i), sp)


def chr_(b):
    return repr(chr(b)) if 32 < b < 127 else "byte 0x%02x" % b


def reach(I, t):
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work += list(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x.a[0] not in I.heads:
            work.extend(I.phi_in.get(x, {}).values())
        if x.op != "bytes":
            work += list(x.a)
    return seen


def run(ctx):
    ctx.rule = RULE
    for f in HASHES:
        one(ctx, f)
