"""Value analysis over an inlined graph: a forward dataflow (global value numbering) in which every place holds a
hash-consed term describing how its value is computed, joins make phi terms, and every program point carries the set of
branch conditions that hold on all paths to it.  No path is enumerated and nothing is executed."""
import re
from mir import RESULT, OPTION, OK, head, VN

_tab = {}


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab)
        _tab[k] = t
    return t


def C(v):
    return mk("c", int(v))


def is_c(t, v=None):
    return t.op == "c" and (v is None or t.a[0] == v)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 7:
        return "…"
    o, a = t.op, t.a
    if o == "c":
        return str(a[0])
    if o == "s":
        return repr(a[0])
    if o == "lin":
        parts = [("%s" % show(x, d + 1)) if k == 1 else "%d*%s" % (k, show(x, d + 1)) for x, k in a[1]]
        if a[0]:
            parts.append(str(a[0]))
        return "(" + " + ".join(parts) + ")"
    if o == "agg":
        return "%s{%s}" % ((a[1] or a[0]).rsplit("::", 1)[-1] + ("#%s" % a[2] if a[2] is not None else ""), ", ".join(show(x, d + 1) for x in a[3]))
    if o == "f":
        return "%s.%s" % (show(a[0], d + 1), a[1])
    if o == "dc":
        return "(%s as #%s)" % (show(a[0], d + 1), a[1])
    if o == "call":
        return "%s@%s(%s)" % (a[0].rsplit("::", 1)[-1], a[1], ", ".join(show(x, d + 1) for x in a[2]))
    if o == "pure":
        return "%s(%s)" % (a[0].rsplit("::", 1)[-1], ", ".join(show(x, d + 1) for x in a[1]))
    if o == "param":
        return "arg%s" % (a[1] or a[0])
    if o == "phi":
        return "phi@%s[%s]" % (a[0], showloc(a[1]))
    if o == "ref":
        return "&" + showloc(a[0])
    return "%s(%s)" % (o, ", ".join(show(x, d + 1) for x in a))


def showloc(loc):
    r, p = loc
    s = "L%s.%s" % (r[1], r[2]) if r[0] == "L" else "*" + show(r[1], 5)
    for e in p:
        s += "." + ",".join(show(x, 6) for x in e)
    return s


# ------------------------------------------------------------------------------------------------ arithmetic smart ctors

def lin_parts(t):
    if t.op == "c":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b, sign=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for t, k in d2.items():
        d1[t] = d1.get(t, 0) + sign * k
    return mklin(c1 + sign * c2, d1)


def mul(a, b):
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        c, d = lin_parts(a)
        return mklin(c * b.a[0], {t: k * b.a[0] for t, k in d.items()})
    return mk("mul", *sorted((a, b), key=lambda t: t.id))


def comm(op, a, b):
    xs = []
    for t in (a, b):
        xs += list(t.a) if t.op == op else [t]
    cs = [t.a[0] for t in xs if t.op == "c"]
    xs = sorted([t for t in xs if t.op != "c"], key=lambda t: t.id)
    if cs:
        v = cs[0]
        for c in cs[1:]:
            v = v & c if op == "and" else v | c if op == "or" else v ^ c
        if op == "and" and v == 0:
            return C(0)
        if not xs:
            return C(v)
        if not (v == 0 and op in ("or", "xor")):
            xs.append(C(v))
    if len(xs) == 1:
        return xs[0]
    return mk(op, *xs)


def lt(a, b):
    if a.op == "c" and b.op == "c":
        return C(1 if a.a[0] < b.a[0] else 0)
    if a is b:
        return C(0)
    return mk("lt", a, b)


def eq(a, b):
    if a is b:
        return C(1)
    if a.op == "c" and b.op == "c":
        return C(1 if a.a[0] == b.a[0] else 0)
    if a.op == "s" and b.op == "s":
        return C(1 if a.a[0] == b.a[0] else 0)
    if a.op == "agg" and b.op == "agg" and a.a[1] == b.a[1] and a.a[2] is not None and a.a[2] != b.a[2]:
        return C(0)
    return mk("eq", *sorted((a, b), key=lambda t: t.id))


def bnot(a):
    if a.op == "c":
        return C(1 - a.a[0]) if a.a[0] in (0, 1) else mk("not", a)
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


INT = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64,
       "i128": 128, "bool": 1, "char": 32}


def binop(op, a, b, ty):
    if op in ("Add", "AddUnchecked"):
        return add(a, b)
    if op in ("Sub", "SubUnchecked"):
        return add(a, b, -1)
    if op in ("Mul", "MulUnchecked"):
        return mul(a, b)
    if op == "BitAnd":
        return comm("and", a, b)
    if op == "BitOr":
        return comm("or", a, b)
    if op == "BitXor":
        return comm("xor", a, b)
    if op in ("Shl", "ShlUnchecked"):
        if b.op == "c" and 0 <= b.a[0] < 128:
            return mul(a, C(1 << b.a[0]))
        return mk("shl", a, b)
    if op in ("Shr", "ShrUnchecked"):
        if a.op == "c" and b.op == "c":
            return C(a.a[0] >> b.a[0])
        return mk("shr", a, b)
    if op == "Div":
        if a.op == "c" and b.op == "c" and b.a[0]:
            return C(a.a[0] // b.a[0])
        return mk("div", a, b)
    if op == "Rem":
        if a.op == "c" and b.op == "c" and b.a[0]:
            return C(a.a[0] % b.a[0])
        return mk("rem", a, b)
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return bnot(eq(a, b))
    if op == "Lt":
        return lt(a, b)
    if op == "Gt":
        return lt(b, a)
    if op == "Le":
        return bnot(lt(b, a))
    if op == "Ge":
        return bnot(lt(a, b))
    return mk("bin", op, a, b)


def cast(a, frm, to):
    if to not in INT or frm not in INT:
        return mk("cast", to, a)
    if a.op == "c":
        v = a.a[0]
        if to.startswith("u") or to in ("bool", "char"):
            v &= (1 << INT[to]) - 1
        return C(v)
    fu, tu = not frm.startswith("i"), not to.startswith("i")
    if fu and (INT[to] > INT[frm] or (INT[to] == INT[frm])):
        return a if tu or INT[to] > INT[frm] else mk("cast", to, a)
    if not fu and not tu and INT[to] >= INT[frm]:
        return a
    if tu and a.op == "and" and len(a.a) == 2:
        # a mask that keeps all the bits the narrower type has
        m = (1 << INT[to]) - 1
        for x, y in (a.a, a.a[::-1]):
            if y.op == "c" and y.a[0] & m == m:
                return cast(x, frm, to)
    return mk("cast", to, a)


def discr_values(prog, adt):
    a = prog.adts.get(adt)
    if a:
        return [v["discr"] for v in a["variants"]]
    if adt in (RESULT, OPTION, "core::ops::control_flow::ControlFlow"):
        return [0, 1]
    return None


# ------------------------------------------------------------------------------------------------ states

class St:
    __slots__ = ("m", "facts")

    def __init__(self, m=None, facts=frozenset()):
        self.m = m if m is not None else {}
        self.facts = facts

    def copy(self):
        return St(dict(self.m), self.facts)


IDENT_HEADS = {"alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box", "std::path::PathBuf", "alloc::borrow::Cow",
               "alloc::ffi::c_str::CString", "std::ffi::os_str::OsString", "bytes::bytes::Bytes", "generic_array::GenericArray"}
RX_INT = re.compile(r"[ui](8|16|32|64|128|size)$")
RX_IDENT = re.compile(
    r"(.*::as_(slice|mut_slice|ref|mut|bytes|str|path|mut_str|os_str|deref|ptr|mut_ptr)$)|"
    r"(core::borrow::Borrow(Mut)?::borrow(_mut)?$)|(core::hint::must_use$)|(core::iter::traits::iterator::Iterator::by_ref$)|"
    r"(std::path::Path::new$)|(core::hint::black_box$)|(.*::into_boxed_slice$)")
RX_COPY = re.compile(
    r"(core::clone::Clone::clone$)|(.*::to_vec$)|(.*::to_owned$)|(alloc::string::ToString::to_string$)|(.*::into_owned$)|"
    r"(core::convert::(Into::into|From::from)$)|(.*::to_path_buf$)|(alloc::string::String::into_bytes$)|(.*::into_boxed_slice$)|"
    r"(alloc::slice::<impl \[T\]>::into_vec$)")
RX_LOCK = re.compile(r"sync.*(Mutex|RwLock)(::)?<.*>::(lock|read|write)$")
RX_PURE = re.compile(
    r"core::num::|core::cmp::|core::slice::<impl|core::str::|core::mem::size_of|core::iter::|core::convert::|core::default::|"
    r"core::char::|core::array::|alloc::vec::Vec::<T, A>::(len|is_empty|capacity)|alloc::string::String::(len|is_empty|from_utf8_lossy)|"
    r"core::ops::(bit|arith|range)|core::option::|core::result::|adler::|std::path::|core::ascii|alloc::slice::|alloc::str::|"
    r"core::ptr::.*is_null|core::fmt::|alloc::fmt::format|std::collections::.*::(len|is_empty|contains|contains_key|get|keys|values|iter)$|"
    r"core::ffi::c_str|alloc::ffi::c_str|generic_array::|crc32fast::hash|core::f(32|64)|std::f(32|64)|core::intrinsics")
SITEFUL_PURE = re.compile(r"std::path::Path::(exists|is_dir|is_file|metadata|read_dir|canonicalize)|(.*)::(read_dir|metadata)$")


class Site:
    __slots__ = ("node", "frame", "fn", "k", "args", "vals", "res", "facts", "sp", "inl", "st", "rawargs")

    def __repr__(self):
        return "%s:%s %s(%s)" % (self.frame.path, self.sp, self.fn, ", ".join(show(v) for v in self.vals))


class Interp:
    def __init__(self, graph, pure=None, max_sweeps=14, entry_args=None):
        self.g, self.prog = graph, graph.prog
        self.pure_fns = pure or (lambda p: False)
        self.phi_in = {}
        self.instate, self.outedge = {}, {}
        self.sticky = {}
        self.discr_ty = {}
        self.proms = {}
        self.retval = {}
        self.heads = set()
        ri = graph.rpo_i
        for v in graph.rpo:
            for p, _ in graph.preds[v]:
                if ri[p] >= ri[v]:
                    self.heads.add(v)
        self.changed_phi = True
        st = St()
        f = graph.root
        for i in range(1, f.fn["argc"] + 1):
            st.m[("L", f.id, i)] = {(): (entry_args or {}).get(i) or mk("param", i, f.fn["locals"][i].get("n") or "")}
        self.entry = st
        self.run(max_sweeps)

    # -------------------------------------------------------------------------------- locations
    def loc_of(self, st, fr, place):
        root, path = ("L", fr.id, place[0]), ()
        for e in (place[1] if len(place) > 1 else ()):
            k = e[0]
            if k == "d":
                t = self.read(st, (root, path))
                root, path = self.deref_loc(t)
            elif k == "f":
                path = path + (self.fel(e),)
            elif k == "dc":
                path = path + (("dc", e[2]),)
            elif k == "i":
                path = path + (("i", self.read(st, (("L", fr.id, e[1]), ()))),)
            elif k == "ci":
                path = path + ((("i", C(e[1])) if not e[2] else ("ie", e[1])),)
            elif k == "ss":
                path = path + (("ss", e[1], e[2], e[3]),)
            else:
                path = path + (("o", str(k)),)
        return (root, path)

    def fel(self, e):
        """field element; fields of workspace structs carry their name"""
        if len(e) > 3 and e[3]:
            a = self.prog.adts.get(head(e[3]))
            if a and len(a["variants"]) == 1:
                return ("f", e[1], "%s.%s" % (head(e[3]).rsplit("::", 1)[-1], e[2]))
        return ("f", e[1])

    def deref_loc(self, t):
        t = self.simp(t)
        if t.op == "ref":
            return t.a[0]
        return (("M", t), ())

    def base_val(self, root):
        if root[0] == "M":
            t = root[1]
            if t.op == "&":
                return t.a[0]
            if t.op in ("s", "bytes"):
                return t
            return mk("*", t)
        return mk("undef", root[1], root[2])

    def read(self, st, loc):
        root, path = loc
        d = st.m.get(root)
        if d is None:
            t = self.base_val(root)
            for e in path:
                t = self.proj(t, e)
            return t
        if len(d) == 1 and () in d:
            t = d[()]
            for e in path:
                t = self.proj(t, e)
            return t
        best, bt = None, None
        for n in range(len(path), -1, -1):
            if path[:n] in d:
                best, bt = path[:n], d[path[:n]]
                break
        if bt is None:
            best, bt = (), self.base_val(root)
        for e in path[len(best):]:
            bt = self.proj(bt, e)
        kids = [(p[len(path):], v) for p, v in d.items() if len(p) > len(path) and p[:len(path)] == path and len(p) > len(best)]
        if kids:
            bt = mk("upd", bt, tuple(sorted(kids, key=lambda x: (len(x[0]), str(x[0])))))
        return bt

    def write(self, st, loc, val):
        root, path = loc
        # element writes become a store in the containing place
        for i, e in enumerate(path):
            if e[0] in ("i", "ie", "ss", "r"):
                parent = (root, path[:i])
                old = self.read(st, parent)
                rest = path[i + 1:]
                self.write(st, parent, mk("store", old, e, rest, val))
                return
        d = st.m.get(root)
        if d is None:
            d = {}
        if path == ():
            st.m[root] = {(): val}
            return
        # fold into an aggregate
        if () in d and len(d) == 1:
            nv = self.agg_set(d[()], path, val)
            if nv is not None:
                st.m[root] = {(): nv}
                return
        d = {p: v for p, v in d.items() if p[:len(path)] != path}
        d[path] = val
        st.m[root] = d

    def agg_set(self, t, path, val):
        if not path:
            return val
        e = path[0]
        if t.op != "agg":
            return None
        if e[0] == "dc":
            if t.a[2] != e[1]:
                return None
            return self.agg_set(t, path[1:], val)
        if e[0] != "f" or e[1] >= len(t.a[3]):
            return None
        nv = self.agg_set(t.a[3][e[1]], path[1:], val)
        if nv is None:
            return None
        ops = list(t.a[3])
        ops[e[1]] = nv
        return mk("agg", t.a[0], t.a[1], t.a[2], tuple(ops))

    # -------------------------------------------------------------------------------- projections, simplification
    def proj(self, t, e):
        k = e[0]
        if k == "f":
            b = t
            if b.op == "dc":
                b0 = self.simp(b.a[0])
                if b0.op == "agg":
                    if b0.a[2] == b.a[1] and e[1] < len(b0.a[3]):
                        return b0.a[3][e[1]]
                    return mk("never")
                if b0.op == "pure" and b0.a[0] == "int_try" and b.a[1] == 0:
                    return b0.a[1][0]        # a checked conversion keeps the value
                if b0.op == "phi":
                    c = self.phi_variant(b0, b.a[1])
                    if c is not None:
                        return self.proj(mk("dc", c, b.a[1]), e)
                if b0.op == "upd":
                    for p, v in b0.a[1]:
                        if p == (("dc", b.a[1]), e):
                            return v
            if b.op == "agg" and e[1] < len(b.a[3]):
                return b.a[3][e[1]]
            if b.op == "upd":
                kids = []
                for p, v in b.a[1]:
                    if len(p) == 1 and p[0][:2] == e[:2]:
                        return v
                    if p[0][:2] == e[:2]:
                        kids.append((p[1:], v))
                base = self.proj(b.a[0], e)
                return mk("upd", base, tuple(kids)) if kids else base
            if b.op == "phi":
                c = self.phi_same(b, e)
                if c is not None:
                    return c
            if b.op == "constb":
                pass
            return mk("f", b, e[-1], e)
        if k == "dc":
            return mk("dc", t, e[1])
        if k == "i":
            i = e[1]
            if t.op == "agg" and t.a[0] == "array" and i.op == "c" and i.a[0] < len(t.a[3]):
                return t.a[3][i.a[0]]
            if t.op == "rep":
                return t.a[0]
            if t.op == "bytes" and i.op == "c" and 0 <= i.a[0] < len(t.a[0]):
                return C(t.a[0][i.a[0]])
            if t.op == "store" and t.a[1] == e and not t.a[2]:
                return t.a[3]
            return mk("idx", t, i)
        if k == "r":
            return mk("slice", t, e[1], e[2])
        if k == "der":
            return mk("der", t)
        return mk("pj", t, e)

    def phi_variant(self, phi, vi):
        """the unique incoming value of an enum phi that can be variant vi (None if not unique)"""
        phi = self.trivial(phi)
        if phi.op == "agg" and phi.a[2] == vi:
            return phi
        if phi.op != "phi":
            return None
        cands = set()
        for p, v in self.phi_in.get(phi, {}).items():
            if v.op == "agg" and v.a[2] is not None and v.a[2] != vi:
                continue
            if v is phi:
                return None
            cands.add(v)
        if len(cands) == 1 and phi.a[0] not in self.heads:
            return cands.pop()
        return None

    def trivial(self, phi):
        """a merge of a value with itself around a loop is that value"""
        for _ in range(20):
            if phi.op != "phi":
                break
            vs = {v for v in self.phi_in.get(phi, {}).values() if v is not phi}
            if len(vs) != 1:
                break
            (phi,) = vs
        return phi

    def phi_same(self, phi, e):
        if phi.a[0] in self.heads:
            return None
        out = set()
        for p, v in self.phi_in.get(phi, {}).items():
            if v.op == "agg" and v.a[2] is not None and v.a[0] == "adt" and e[0] == "f" and e[1] < len(v.a[3]):
                out.add(v.a[3][e[1]])
            elif v.op == "agg" and e[0] == "f" and e[1] < len(v.a[3]):
                out.add(v.a[3][e[1]])
            else:
                return None
        return out.pop() if len(out) == 1 else None

    def simp(self, t):
        if t.op == "f":
            b = t.a[0]
            if b.op == "dc":
                b0 = self.simp(b.a[0])
                if b0 is not b.a[0] or b0.op == "phi":
                    r = self.proj(mk("dc", b0, b.a[1]), t.a[2])
                    return r if r is t else self.simp(r)
            elif b.op == "phi":
                r = self.proj(b, t.a[2])
                return r if r is t else self.simp(r)
        return t

    def discr(self, t, ty=""):
        t = self.simp(t)
        if t.op == "agg" and t.a[2] is not None:
            dv = discr_values(self.prog, t.a[1])
            return C(dv[t.a[2]] if dv else t.a[2])
        if t.op == "c":
            return t
        d = mk("discr", t)
        if ty:
            self.discr_ty[d] = head(ty)
        return d

    # -------------------------------------------------------------------------------- operands and rvalues
    def const(self, fr, k):
        if k.get("fn"):
            return mk("fn", k["fn"], k.get("res") or "")
        if "static" in k:
            return mk("static", k["static"])
        if "s" in k:
            return mk("s", k["s"])
        ty = k.get("ty", "")
        if "v" in k and not isinstance(k["v"], (list, dict)):
            if isinstance(k["v"], bool):
                return C(1 if k["v"] else 0)
            if isinstance(k["v"], int):
                return C(k["v"])
            return mk("cv", str(k["v"]))
        if "b" in k:
            v = mk("bytes", tuple(k["b"]))
            return mk("&", v) if ty.startswith("&") else v
        if "prom" in k and k.get("def"):
            return self.prom(k["def"], k["prom"])
        if k.get("def"):
            return mk("cdef", k["def"])
        return mk("agg", "tuple", "", None, ()) if ty == "()" else mk("k", ty)

    def prom(self, d, i):
        key = (d, i)
        if key in self.proms:
            return self.proms[key]
        self.proms[key] = mk("prom", d, i)
        f = self.prog.fns.get(d)
        if f and f.get("proms") and i < len(f["proms"]):
            p = f["proms"][i]
            class F:  # a throw-away frame
                pass
            fr = F()
            fr.id, fr.fn, fr.path = ("prom", d, i), p, d
            st = St()
            b = 0
            ok = False
            for _ in range(20):
                blk = p["blocks"][b]
                for s in blk["s"]:
                    self.stmt(st, ("raw", fr, s))
                if blk["t"]["t"] == "return":
                    ok = True
                    break
                if blk["t"]["t"] not in ("goto", "assert"):
                    break
                b = blk["t"]["bb"]
            if ok:
                t = self.read(st, (("L", fr.id, 0), ()))
                self.proms[key] = self.deep(st, t)
        return self.proms[key]

    def deep(self, st, t):
        if t.op == "ref":
            return mk("&", self.deep(st, self.read(st, t.a[0])))
        return t

    def operand(self, st, fr, o):
        if "k" in o:
            return self.const(fr, o["k"])
        pl = o.get("c") or o.get("m")
        return self.read(st, self.loc_of(st, fr, pl))

    def rvalue(self, st, fr, v, sp=None):
        r = v["r"]
        if r == "use":
            return self.operand(st, fr, v["o"])
        if r == "ref" or r == "addr":
            pl = v["p"]
            # &*p of an opaque pointer is p itself
            loc = self.loc_of(st, fr, pl)
            if loc[1] == () and loc[0][0] == "M":
                return loc[0][1]
            return mk("ref", loc)
        if r == "bin":
            a, b = self.operand(st, fr, v["a"]), self.operand(st, fr, v["b"])
            a, b = self.simp(a), self.simp(b)
            op = v["op"]
            if op.endswith("WithOverflow"):
                base = op[:-12]
                return mk("agg", "tuple", "", None, (binop(base, a, b, v.get("ty")), mk("ovf", base, a, b, v.get("ty") or "")))
            return binop(op, a, b, v.get("ty"))
        if r == "un":
            a = self.operand(st, fr, v["o"])
            if v["op"] == "Not":
                return bnot(a) if self.op_ty(fr, v["o"]) == "bool" else mk("inv", a)
            if v["op"] == "PtrMetadata":
                return self.length(st, a)
            if v["op"] == "Neg":
                return mul(a, C(-1))
            return mk("un", v["op"], a)
        if r == "cast":
            if v.get("kind") == "BoxDerefTransmute":
                b = self.operand(st, fr, v["o"])
                return mk("boxptr", b.a[0] if b.op == "f" else b)
            a = self.operand(st, fr, v["o"])
            if v["kind"] == "IntToInt":
                return cast(self.simp(a), v["from"], v["to"])
            if "Coercion" in v["kind"] or v["kind"] in ("PtrToPtr", "Transmute", "BoxDerefTransmute"):
                return a
            return mk("cast", v["to"], a)
        if r == "discr":
            return self.discr(self.read(st, self.loc_of(st, fr, v["p"])), v.get("ty") or "")
        if r == "agg":
            ops = tuple(self.operand(st, fr, o) for o in v["ops"])
            k = v["kind"]
            if k == "adt":
                a = self.prog.adts.get(v["adt"])
                vi = v["vi"]
                if a and len(a["variants"]) == 1:
                    vi = None
                elif a is None and v["adt"] not in (RESULT, OPTION) and not v["adt"].endswith("ControlFlow") and v["variant"] == v["adt"].rsplit("::", 1)[-1]:
                    vi = None
                return mk("agg", "adt", v["adt"], vi, ops)
            if k == "closure":
                return mk("agg", "closure", v["def"], None, ops)
            return mk("agg", k, "", None, ops)
        if r == "repeat":
            return mk("rep", self.operand(st, fr, v["o"]), str(v.get("n")))
        if r == "tls":
            return mk("static", v.get("def") or v.get("d") or "tls")
        return mk("rv", r, str(sp))

    def length(self, st, ref):
        t = self.simp(ref)
        v = self.read(st, t.a[0]) if t.op == "ref" else (t.a[0] if t.op == "&" else mk("*", t) if t.op not in ("s",) else t)
        return self.len_of(v)

    def len_of(self, v):
        v = self.simp(v)
        if v.op == "s":
            return C(len(v.a[0].encode()))
        if v.op == "bytes":
            return C(len(v.a[0]))
        if v.op == "agg" and v.a[0] == "array":
            return C(len(v.a[3]))
        if v.op in ("pure", "call"):
            m = re.search(r"<impl (\w+)>::to_[lbn]e_bytes$", str(v.a[0]))
            if m and m.group(1) in INT:
                return C(INT[m.group(1)] // 8)
        if v.op == "rep":
            m = re.match(r"(\d+)", v.a[1])
            if m:
                return C(int(m.group(1)))
        if v.op == "fill":
            return v.a[1]
        if v.op == "empty":
            return C(0)
        if v.op == "store":
            return self.len_of(v.a[0])
        if v.op == "push":
            return add(self.len_of(v.a[0]), C(1))
        if v.op == "ext":
            return add(self.len_of(v.a[0]), self.len_of(v.a[1]))
        if v.op == "slice" and v.a[1] is not None and v.a[2] is not None:
            hi = v.a[2] if isinstance(v.a[2], T) else None
            lo = v.a[1] if isinstance(v.a[1], T) else C(0)
            if hi is None:
                hi = self.len_of(v.a[0])
            return add(hi, lo, -1)
        if v.op == "out" and v.a[3] is not None:
            return v.a[3]
        return mk("len", v)

    def op_ty(self, fr, o):
        if "k" in o:
            return o["k"].get("ty", "")
        pl = o.get("c") or o.get("m")
        if len(pl) > 2 and pl[1]:
            return pl[2]
        return fr.fn["locals"][pl[0]]["ty"]

    # -------------------------------------------------------------------------------- statements
    def stmt(self, st, s):
        k = s[0]
        if k == "raw":
            _, fr, x = s
            if "v" in x:
                val = self.rvalue(st, fr, x["v"], x.get("sp"))
                self.write(st, self.loc_of(st, fr, x["p"]), self.simp(val))
            elif "dead" in x:
                st.m.pop(("L", fr.id, x["dead"]), None)
            elif "setd" in x:
                loc = self.loc_of(st, fr, x["setd"])
                self.write(st, loc, mk("unk", str(x.get("sp"))))
        elif k == "pass":
            _, cf, l, fr, o = s
            st.m[("L", cf.id, l)] = {(): self.operand(st, fr, o)}
        elif k == "passfield":
            _, cf, l, fr, o, i = s
            st.m[("L", cf.id, l)] = {(): self.proj(self.operand(st, fr, o), ("f", i))}
        elif k == "passenv":
            _, cf, l, fr, o, ty = s
            v = self.operand(st, fr, o)
            if ty.startswith("&") and not self.op_ty(fr, o).startswith("&"):
                if "k" in o:
                    v = mk("&", v)
                else:
                    v = mk("ref", self.loc_of(st, fr, o.get("c") or o.get("m")))
            elif not ty.startswith("&") and self.op_ty(fr, o).startswith("&"):
                v = self.read(st, self.deref_loc(v))
            st.m[("L", cf.id, l)] = {(): v}
        elif k == "passunk":
            _, cf, l, nid, t = s
            src = ()
            fr = self.g.nodes[nid].frame
            vals = tuple(self.val(st, self.operand(st, fr, a)) for a in t["args"][:1])
            st.m[("L", cf.id, l)] = {(): mk("cloarg", nid, l, vals)}
        elif k == "ret":
            _, fr, place, cf = s
            v = self.read(st, (("L", cf.id, 0), ()))
            if place is not None:
                self.write(st, self.loc_of(st, fr, place), self.simp(v))
        elif k == "clear":
            fid = s[1].id
            for r in [r for r in st.m if r[0] == "L" and r[1] == fid]:
                del st.m[r]

    def val(self, st, t, depth=2):
        t = self.simp(t)
        if t.op == "ref" and depth:
            v = self.read(st, t.a[0])
            return mk("&", self.val(st, v, depth - 1))
        return t

    def dv(self, st, t):
        """value behind a reference (through up to two levels)"""
        t = self.simp(t)
        for _ in range(3):
            if t.op == "ref":
                t = self.simp(self.read(st, t.a[0]))
            elif t.op == "&":
                t = self.simp(t.a[0])
            else:
                break
        return t

    # -------------------------------------------------------------------------------- calls
    def call(self, st, n, fr, t, record=None):
        f = t["f"]
        args = [self.simp(self.operand(st, fr, a)) for a in t["args"]]
        if "k" in f:
            p = f["k"].get("fn") or "?"
            rp = f["k"].get("res") or p
        else:
            p = rp = "DYN" if "dyn" in f else "CLOSURE"
        tys = [self.op_ty(fr, a) for a in t["args"]]
        res = self.model(st, n, fr, t, p, rp, f.get("k") or {}, args, tys)
        vals = None
        if record is not None:
            vals = tuple(self.val(st, a) for a in args)
        if res is None:
            # opaque: everything reachable through a &mut argument may change
            vals2 = tuple(self.val(st, a) for a in args)
            res = mk("pure", rp, vals2) if (RX_PURE.match(p) and not SITEFUL_PURE.match(p) and not any(x.startswith("&mut") for x in tys)) or \
                self.pure_fns(rp) else mk("call", rp, n.id, vals2)
            if RX_LOCK.search(rp):          # a poisoned lock follows a panic
                res = mk("agg", "adt", RESULT, OK, (self.proj(mk("dc", res, OK), ("f", 0, "0")),))
            for i, (a, ty) in enumerate(zip(args, tys)):
                if (ty.startswith("&mut") or ty.startswith("*mut")) and a.op == "ref":
                    old = self.read(st, a.a[0])
                    ln = None
                    if re.search(r"::(read_exact|copy_from_slice|fill|sort|sort_by|sort_by_key|encrypt_block|decrypt_block|reverse)$", p):
                        ln = self.len_of(old)
                    self.write(st, a.a[0], mk("out", n.id, i, rp, ln, tuple(vals2) if self.out_args(rp) else ()))
                elif ty.startswith("&mut") and a.op not in ("ref",):
                    self.write(st, (("M", a), ()), mk("out", n.id, i, rp, None, ()))
        if record is not None:
            s = Site()
            s.node, s.frame, s.fn, s.k, s.args, s.vals, s.res, s.facts, s.sp = n.id, fr, rp, f.get("k") or {}, args, vals, res, st.facts, t.get("sp")
            s.st, s.rawargs, s.inl = st.copy(), t["args"], False
            record.append(s)
        if t.get("dest") is not None:
            self.write(st, self.loc_of(st, fr, t["dest"]), res)

    def out_args(self, p):
        return True

    def model(self, st, n, fr, t, p, rp, k, args, tys):
        if p in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut"):
            ty = k.get("self") or (k.get("ga") or [""])[0]
            a = args[0]
            if head(ty) in IDENT_HEADS:
                return a
            loc = self.deref_loc(a)
            return mk("ref", (loc[0], loc[1] + (("der",),)))
        if p in ("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into") and args and all(RX_INT.match(x) for x in (k.get("ga") or [""])):
            return mk("pure", "int_try", (self.dv(st, args[0]),))
        if RX_IDENT.match(p):
            return args[0] if args else None
        if RX_COPY.match(p) and args:
            return self.dv(st, args[0]) if args[0].op in ("ref", "&") else args[0]
        if p in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut"):
            loc = self.deref_loc(args[0])
            return mk("ref", (loc[0], loc[1] + (self.idx_elem(args[1]),)))
        name = p.rsplit("::", 1)[-1]
        if p.startswith("core::slice::<impl [T]>::") or p.startswith("alloc::vec::Vec::<T") or p.startswith("alloc::string::String") or p.startswith("core::str::<impl str>::"):
            if name == "len":
                return self.length(st, args[0])
            if name == "is_empty":
                return eq(self.length(st, args[0]), C(0))
            if name in ("new", "with_capacity"):
                return mk("empty")
            if name == "push" and args[0].op == "ref":
                self.write(st, args[0].a[0], mk("push", self.read(st, args[0].a[0]), args[1]))
                return mk("agg", "tuple", "", None, ())
            if name == "insert" and args[0].op == "ref" and len(args) == 3 and is_c(args[1], 0):
                self.write(st, args[0].a[0], mk("ext", mk("push", mk("empty"), args[2]), self.read(st, args[0].a[0])))
                return mk("agg", "tuple", "", None, ())
            if name in ("extend_from_slice", "push_str", "append") and args[0].op == "ref":
                self.write(st, args[0].a[0], mk("ext", self.read(st, args[0].a[0]), self.dv(st, args[1])))
                return mk("agg", "tuple", "", None, ())
            if name == "copy_from_slice":
                loc = self.deref_loc(args[0])
                self.write(st, loc, self.dv(st, args[1]))
                return mk("agg", "tuple", "", None, ())
            if name in ("iter", "iter_mut"):
                return mk("iter", self.dv(st, args[0]))
            if name == "clear" and args[0].op == "ref":
                self.write(st, args[0].a[0], mk("empty"))
                return mk("agg", "tuple", "", None, ())
        if p == "core::iter::traits::collect::Extend::extend" and args[0].op == "ref" and re.match(r"^&?(alloc::vec::Vec<|\[|&\[)", tys[1].lstrip("&")):
            self.write(st, args[0].a[0], mk("ext", self.read(st, args[0].a[0]), self.dv(st, args[1]) if args[1].op in ("ref", "&") else args[1]))
            return mk("agg", "tuple", "", None, ())
        if p == "alloc::boxed::box_assume_init_into_vec_unsafe":
            for root, d in st.m.items():
                if root[0] == "M" and root[1].op == "boxptr" and root[1].a[0] is args[0] and len(d) == 1:
                    (v,) = d.values()
                    if v.op == "agg" and v.a[0] == "array":
                        return v
        if p == "alloc::vec::from_elem":
            return mk("fill", args[0], args[1])
        if p == "core::iter::traits::collect::IntoIterator::into_iter":
            a = args[0]
            if a.op == "ref":
                return mk("iter", self.read(st, a.a[0]))
            if a.op == "&":
                return mk("iter", a.a[0])
            if tys[0].startswith("alloc::vec::Vec"):
                return mk("iter", a)
            return a
        if p == "core::iter::traits::iterator::Iterator::next":
            src = self.read(st, args[0].a[0]) if args[0].op == "ref" else mk("*", args[0])
            return mk("next", n.id, src)
        if p in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le",
                 "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge"):
            a, b = self.dv(st, args[0]), self.dv(st, args[1])
            ty = head(tys[0])
            if ty in self.prog.adts and len(self.prog.adts[ty]["variants"]) > 1:
                a, b = self.discr(a), self.discr(b)
            return {"eq": lambda: eq(a, b), "ne": lambda: bnot(eq(a, b)), "lt": lambda: lt(a, b), "ge": lambda: bnot(lt(a, b)),
                    "gt": lambda: lt(b, a), "le": lambda: bnot(lt(b, a))}[name]()
        if p in ("core::cmp::Ord::min", "core::cmp::min", "core::cmp::Ord::max", "core::cmp::max"):
            return mk(name, *sorted(args, key=lambda t: t.id))
        if p.startswith("core::num::<impl "):
            if name in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
                return {"wrapping_add": add, "wrapping_sub": lambda a, b: add(a, b, -1), "wrapping_mul": mul}[name](args[0], args[1])
            if name == "rotate_left" and 0:
                return None
            if name in ("checked_add", "checked_sub", "checked_mul", "saturating_sub", "saturating_add", "saturating_mul", "div_ceil", "min", "max"):
                if name == "min" or name == "max":
                    return mk(name, *sorted(args, key=lambda t: t.id))
                return mk(name, *args)
        if p == "core::cmp::Ord::clamp":
            return mk("clamp", *args)
        if p in ("core::mem::size_of",):
            g = (k.get("ga") or ["?"])[0]
            if g in INT:
                return C(INT[g] // 8)
            return mk("sizeof", g)
        if p == "core::ptr::<impl" or name == "is_null" and "ptr" in p:
            return mk("isnull", args[0])
        return None

    def idx_elem(self, i):
        i = self.simp(i)
        if i.op == "agg" and i.a[1].startswith("core::ops::range::"):
            nm = i.a[1].rsplit("::", 1)[-1]
            if nm == "Range":
                return ("r", i.a[3][0], i.a[3][1])
            if nm == "RangeFrom":
                return ("r", i.a[3][0], "end")
            if nm == "RangeTo":
                return ("r", C(0), i.a[3][0])
            if nm == "RangeToInclusive":
                return ("r", C(0), add(i.a[3][0], C(1)))
            if nm == "RangeFull":
                return ("r", C(0), "end")
        return ("i", i)

    # -------------------------------------------------------------------------------- fixpoint
    def edge_facts(self, st, n, lab, fr, t):
        """returns new facts or None if the edge cannot be taken"""
        facts = st.facts
        if lab is None or lab[0] == "call":
            return facts
        if lab[0] == "assert":
            c = self.simp(self.operand(st, fr, t["cond"]))
            exp = bool(t["exp"])
            return self.add_fact(facts, c, exp)
        o = self.simp(self.operand(st, fr, t["o"]))
        if lab[0] == "sw":
            v = lab[1]
            if o.op == "c":
                return facts if o.a[0] == v else None
            if t.get("ty") == "bool":
                return self.add_fact(facts, o, v != 0)
            return self.add_fact(facts, eq(o, C(v)), True)
        vals = lab[1]
        if o.op == "c":
            return facts if o.a[0] not in vals else None
        if t.get("ty") == "bool":
            if 0 in vals and 1 in vals:
                return None
            return self.add_fact(facts, o, 0 in vals)
        for v in vals:
            facts = self.add_fact(facts, eq(o, C(v)), False)
            if facts is None:
                return None
        dv = discr_values(self.prog, self.discr_ty.get(o, "")) if o.op == "discr" else None
        if dv:
            rest = [x for x in dv if x not in vals]
            if not rest:
                return None
            if len(rest) == 1:
                facts = self.add_fact(facts, eq(o, C(rest[0])), True)
        return facts

    def add_fact(self, facts, c, pol):
        while c.op == "not":
            c, pol = c.a[0], not pol
        if c.op == "c":
            return facts if bool(c.a[0]) == pol else None
        if (c, not pol) in facts:
            return None
        new = {(c, pol)}
        if pol and c.op == "eq":
            a, b = c.a
            d, v = (a, b) if b.op == "c" else (b, a)
            if d.op == "discr" and v.op == "c":
                dvs = discr_values(self.prog, self.discr_ty.get(d, ""))
                for x in (dvs or []):
                    if x != v.a[0]:
                        if (eq(d, C(x)), True) in facts:
                            return None
                        new.add((eq(d, C(x)), False))
        return facts | new

    def join(self, nid, ins):
        """ins: list of (pred, St)"""
        if len(ins) == 1 and nid not in self.sticky:
            return ins[0][1].copy()
        first = ins[0][1]
        facts = first.facts
        for _, s in ins[1:]:
            if facts is not s.facts:
                facts = facts & s.facts
        sticky = self.sticky.setdefault(nid, {})
        m = {}
        roots = set(first.m)
        for _, s in ins[1:]:
            roots |= set(s.m)
        for r in roots:
            ds = [s.m.get(r) for _, s in ins]
            d0 = ds[0]
            st = sticky.get(r)
            if st is None and all(d is d0 for d in ds):
                m[r] = d0
                continue
            if r[0] == "L" and any(d is None for d in ds):
                continue  # not initialised on some path: no later use
            if st is None and all(d == d0 for d in ds):
                m[r] = d0
                continue
            paths = set(st or ())
            keyset = set()
            for d in ds:
                keyset |= set(d or ())
            if len(keyset) > 24:
                keyset = {()}
            out = {}
            # only keep minimal+differing structure: if all share the same key sets join per key, else join at the top
            same = all(set(d or ()) == keyset for d in ds)
            if not same:
                tops = [p for p in keyset if not any(q != p and p[:len(q)] == q for q in keyset)]
                missing = any(all(p[:len(q)] != q for q in (d or ())) and not any(q[:len(p)] == p for q in (d or ())) for d in ds for p in tops)
                # read at each key in each state
                pass
            for p in sorted(keyset, key=len):
                vs = [self.read_raw(s, r, p, keyset) for _, s in ins]
                if p not in paths and all(v is vs[0] for v in vs):
                    out[p] = vs[0]
                else:
                    ph = mk("phi", nid, (r, p))
                    inc = {pr: v for (pr, _), v in zip(ins, vs)}
                    if self.phi_in.get(ph) != inc:
                        self.phi_in[ph] = inc
                        self.changed_phi = True
                    sticky.setdefault(r, set()).add(p)
                    out[p] = ph
            m[r] = out
        return St(m, facts)

    def read_raw(self, s, r, p, keyset):
        d = s.m.get(r) or {}
        if p in d:
            return d[p]
        for i in range(len(p) - 1, -1, -1):
            if p[:i] in d:
                t = d[p[:i]]
                for e in p[i:]:
                    t = self.proj(t, e)
                return t
        t = self.base_val(r)
        for e in p:
            t = self.proj(t, e)
        return t

    def run(self, max_sweeps):
        g = self.g
        self.sweeps = 0
        self.final = False
        for sweep in range(max_sweeps):
            self.sweeps += 1
            changed = False
            self.changed_phi = False
            for nid in g.rpo:
                n = g.nodes[nid]
                if nid == g.start:
                    ins = [(-1, self.entry)]
                else:
                    ins = []
                    for p, lab in g.preds[nid]:
                        e = self.outedge.get((p, nid, lab))
                        if e is not None:
                            ins.append(((p, lab), e))
                if not ins:
                    if nid in self.instate:
                        del self.instate[nid]
                        for lab, w in n.succ:
                            self.outedge.pop((nid, w, lab), None)
                        changed = True
                    continue
                st = self.join(nid, ins)
                old = self.instate.get(nid)
                if old is not None and old.facts == st.facts and old.m == st.m and not self.phi_dirty:
                    continue
                changed = True
                self.instate[nid] = st
                self.transfer(n, st.copy())
            self.phi_dirty = self.changed_phi
            if not changed and not self.changed_phi:
                break
        else:
            self.converged = False
            return
        self.converged = True

    phi_dirty = False
    converged = None

    def transfer(self, n, st, record=None):
        for s in n.stmts:
            self.stmt(st, s)
        kind, fr, t = n.term if n.term else ("none", n.frame, {})
        if kind == "call":
            self.call(st, n, fr, t, record)
        elif kind == "drop" and record is None:
            pass
        elif kind == "return" and fr is self.g.root:
            self.retval[n.id] = self.read(st, (("L", fr.id, 0), ()))
        if record is not None:
            return st
        for lab, w in n.succ:
            f = self.edge_facts(st, n, lab, fr, t)
            if f is None:
                self.outedge[(n.id, w, lab)] = None
            else:
                self.outedge[(n.id, w, lab)] = St(st.m, f)
        return st

    # -------------------------------------------------------------------------------- queries after the fixpoint
    def sites(self):
        """all opaque call sites, with argument terms and facts"""
        if not hasattr(self, "_sites"):
            out = []
            for nid in self.g.rpo:
                if nid in self.instate:
                    n = self.g.nodes[nid]
                    if n.term and n.term[0] == "call":
                        self.transfer(n, self.instate[nid].copy(), out)
            self._sites = out
        return self._sites

    def steps(self):
        """every assignment of the graph with the state before it: (node id, frame, stmt, state, facts)"""
        for nid in self.g.rpo:
            if nid not in self.instate:
                continue
            st = self.instate[nid].copy()
            for s in self.g.nodes[nid].stmts:
                if s[0] == "raw" and "v" in s[2]:
                    yield nid, s[1], s[2], st
                self.stmt(st, s)

    def new_facts(self, nid, lab):
        """facts established by taking this edge (None: edge infeasible)"""
        n = self.g.nodes[nid]
        st = self.at_term(nid)
        kind, fr, t = n.term if n.term else ("none", n.frame, {})
        return self.edge_facts(St(st.m, frozenset()), n, lab, fr, t)

    def at_term(self, nid):
        """state just before the terminator of a node"""
        st = self.instate[nid].copy()
        for s in self.g.nodes[nid].stmts:
            self.stmt(st, s)
        return st

    def expand(self, facts, depth=6):
        """closure of a fact set through non-loop phis: knowing which variant/boolean a merged value has tells which
        incoming edges are possible, hence what held on them"""
        out = set(facts)
        work = list(facts)
        seen = set()
        budget = 4000
        while work and budget:
            budget -= 1
            c, pol = work.pop()
            if (c, pol) in seen:
                continue
            seen.add((c, pol))
            new = self.implied(c, pol)
            for f in new:
                if f not in out:
                    out.add(f)
                    work.append(f)
        return out

    def implied(self, c, pol):
        if c.op == "or" and not pol:
            return {(x, False) for x in c.a}
        if c.op == "and" and pol and all(self.boolish(x) for x in c.a):
            return {(x, True) for x in c.a}
        ph, want = None, None
        if c.op == "phi":
            ph, want = c, (lambda v: C(1 if pol else 0) if v.op == "c" else None)
            cond = lambda v: (v, pol)
        elif c.op == "eq":
            a, b = c.a
            d, v = (a, b) if b.op == "c" else (b, a)
            if v.op == "c" and d.op == "discr":
                ph0 = self.simp(d.a[0])
                if ph0.op == "phi":
                    ph = ph0
                    cond = lambda x: (eq(self.discr(x, self.discr_ty.get(d, "")), v), pol)
                elif ph0 is not d.a[0]:
                    return {(eq(self.discr(ph0, self.discr_ty.get(d, "")), v), pol)}
            elif v.op == "c" and d.op == "phi":
                ph = d
                cond = lambda x: (eq(x, v), pol)
        if ph is None or ph.a[0] in self.heads or ph not in self.phi_in:
            return set()
        res = None
        for pr, pv in self.phi_in[ph].items():
            cc, pp = cond(self.simp(pv))
            while cc.op == "not":
                cc, pp = cc.a[0], not pp
            if cc.op == "c":
                if bool(cc.a[0]) != pp:
                    continue
                extra = set()
            else:
                extra = {(cc, pp)}
            e = self.outedge.get((pr[0], ph.a[0], pr[1])) if isinstance(pr, tuple) else None
            if e is None:
                continue
            fs = set(e.facts) | extra
            if extra and (cc, not pp) in e.facts:
                continue
            res = fs if res is None else res & fs
        return res or set()

    def boolish(self, t):
        return t.op in ("eq", "lt", "not", "isnull")


def leaves(I, t, limit=400):
    """the values a term can stand for: phis (and projections, casts of phis) are replaced by their incoming values"""
    out, seen = [], set()
    work = [t]
    while work and len(seen) < limit:
        x = I.simp(work.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_in:
            work.extend(I.phi_in[x].values())
            continue
        if x.op == "never":
            continue
        if x.op == "f":
            b = x.a[0]
            if b.op == "dc":
                bs = leaves_inner(I, b.a[0], seen, limit)
                if bs is not None:
                    for y in bs:
                        r = I.proj(mk("dc", y, b.a[1]), x.a[2])
                        if r is not x:
                            work.append(r)
                        elif r not in out:
                            out.append(r)
                    continue
            else:
                bs = leaves_inner(I, b, seen, limit)
                if bs is not None:
                    for y in bs:
                        r = I.proj(y, x.a[2])
                        if r is not x:
                            work.append(r)
                        elif r not in out:
                            out.append(r)
                    continue
        if x not in out:
            out.append(x)
    return out


def leaves_inner(I, b, seen, limit):
    b = I.simp(b)
    if b.op == "phi" and b in I.phi_in:
        return leaves(I, b, limit)
    if b.op == "f":
        ls = leaves(I, b, limit)
        if ls != [b]:
            return ls
    return None


def subterms(t, seen=None):
    """all subterms (through aggregates, projections and calls; not through phis)"""
    seen = seen if seen is not None else set()
    work = [t]
    while work:
        x = work.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ref":
                continue
            work.extend(x.a)
        elif isinstance(x, tuple):
            work.extend(x)
    return seen


class Intervals:
    """consistency of a conjunction of facts, by intervals on terms compared with constants"""
    @staticmethod
    def bounds(facts):
        b = {}

        def lo(t, v):
            x = b.setdefault(t, [0, None])
            x[0] = max(x[0], v)

        def hi(t, v):
            x = b.setdefault(t, [0, None])
            x[1] = v if x[1] is None else min(x[1], v)
        for c, pol in facts:
            if c.op == "lt":
                x, y = c.a
                if is_c(y) and not is_c(x):
                    hi(x, y.a[0] - 1) if pol else lo(x, y.a[0])
                elif is_c(x) and not is_c(y):
                    lo(y, x.a[0] + 1) if pol else hi(y, x.a[0])
            elif c.op == "eq":
                x, y = c.a
                if is_c(x):
                    x, y = y, x
                if is_c(y) and not is_c(x):
                    if pol:
                        lo(x, y.a[0])
                        hi(x, y.a[0])
                    elif y.a[0] == 0:
                        lo(x, 1)
        return b

    @staticmethod
    def consistent(facts):
        fs = set(facts)
        for c, pol in fs:
            if (c, not pol) in fs:
                return False
        for t, (l, h) in Intervals.bounds(fs).items():
            if h is not None and l > h:
                return False
        return True


def path_facts(I, targets, relevant, limit=200000):
    """path-sensitive: for each target node, the sets of relevant facts that hold on some path reaching it"""
    out = {t: set() for t in targets}
    cache = {}
    seen = set()
    work = [(I.g.rpo[0], frozenset())]
    steps = 0
    while work:
        nid, fs = work.pop()
        if (nid, fs) in seen:
            continue
        seen.add((nid, fs))
        steps += 1
        if steps > limit:
            return None
        if nid in out:
            out[nid].add(fs)
        for lab, w in I.g.nodes[nid].succ:
            k = (nid, lab, w)
            if k not in cache:
                if nid not in I.instate:
                    cache[k] = None
                else:
                    nf = I.new_facts(nid, lab)
                    cache[k] = None if nf is None else frozenset(f for f in I.expand(nf) if relevant(f[0]))
            nf = cache[k]
            if nf is None:
                continue
            f2 = fs | nf
            if nf and not Intervals.consistent(f2):
                continue
            work.append((w, f2))
    return out
