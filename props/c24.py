import re
from common import *
from esp import Esp
from mir import Graph, RESULT, OPTION, head

RULE = ("Taint analysis (path-sensitive dataflow over MIR, the tool's functions inlined): the names an archive lists are untrusted; a path that contains one reaches a file-system writing call only if what was "
        "taken from the name is a single normal component (Path::file_name, the payload of Component::Normal) or the whole name was checked to consist of such components; neither absolute or parent "
        "components nor `..` constants may be pushed and nothing may be popped while a name is processed.")

T = ("T", "name")
SINK = re.compile(r"^std::fs::(write|create_dir|create_dir_all|rename|copy|remove_file|remove_dir|remove_dir_all|hard_link|set_permissions)$|^std::fs::File::(create|create_new|options)$"
                  r"|^std::fs::OpenOptions::open$|^std::fs::DirBuilder::create$|^std::os::unix::fs::(symlink|chown)$|^tempfile::.*::(persist|new_in|tempfile_in|keep)$|^std::env::set_current_dir$")
CLEAN = re.compile(r"^std::path::Path::(file_name|file_stem|extension|file_prefix)$|::(len|is_empty|eq|ne|cmp|partial_cmp|contains|starts_with|ends_with|is_match|matches|exists|is_file|is_dir|is_absolute|is_relative|has_root|count)$")
COMP = "std::path::Component"


class Taint(Esp):
    max_states = 400000

    def __init__(self, g, preds):
        super().__init__(g)
        self.sinks, self.sources, self.bad = {}, 0, []
        self.preds = preds

    def const(self, k):
        return ("S", k["s"]) if "s" in k else None

    def get_place(self, env, fr, p):
        # what is inside Component::Normal is one plain name
        v = env.get((fr.id, p[0]))
        for e in (p[1] if len(p) > 1 else ()):
            if e[0] == "dc" and e[1] == "Normal":
                v0 = super().get_place(env, fr, [p[0], p[1][:p[1].index(e)], None])
                if v0 is None or v0[0] == "T":
                    return None
        return super().get_place(env, fr, p)

    def taint(self, env, a, depth=0):
        if a is None or depth > 8:
            return False
        if a[0] == "T":
            return True
        if a[0] == "r":
            return self.taint(env, self.get_path(env, a[1], a[2]), depth + 1)
        if a[0] == "v":
            return any(self.taint(env, x, depth + 1) for x in a[3])
        if a[0] == "t":
            return any(self.taint(env, x, depth + 1) for x in a[1])
        if a[0] == "&":
            return self.taint(env, a[1], depth + 1)
        return False

    def on_call(self, env, ust, node, fr, t, args):
        k = t["f"].get("k") or {}
        p = k.get("res") or k.get("fn") or ""
        d = t.get("dest")
        rty = ""
        if d is not None:
            rty = fr.fn["locals"][d[0]]["ty"] if len(d) == 1 or not d[1] else d[2]
        if p.startswith("mopaq::") and ("FileEntry" in rty or re.search(r"\balloc::string::String\b", rty)):
            self.sources += 1
            return [(self.shape(rty), ust), (("v", RESULT, 1, ()), ust)] if head(rty) == RESULT else [(self.shape(rty), ust)]
        tn = [self.taint(env, a) for a in args]
        if SINK.search(p):
            self.sinks[node.id] = self.sinks.get(node.id, False)
            # the data written may come from the archive, the path may not
            pathargs = tn if not p.endswith("::write") else tn[:1]
            if any(pathargs) and not ust:
                self.bad.append((node, self.cur, "%s is reached with a path that contains a name from the archive as it is" % p))
            return [(None, ust)]
        if p.endswith("Iterator::next") or p.endswith("::next"):
            ust = False if any(tn) and "Component" not in rty else ust
        if re.search(r"PathBuf::(push|set_file_name)$|Path::(join|with_file_name)$", p) and len(t["args"]) > 1:
            s = args[1]
            while s is not None and s[0] == "r":
                s = self.get_path(env, s[1], s[2])
            s = s[1] if s is not None and s[0] == "S" else None
            if s is not None and (s.startswith("/") or ".." in s.split("/")):
                self.bad.append((node, self.cur, "%s appends the constant %r" % (p, s)))
        if p == "std::path::PathBuf::pop" and args and args[0] is not None:
            return [(None, ust, self.smear(env, args))]
        if re.search(r"::(context|with_context|ok_or|ok_or_else|expect|map_err|unwrap_or_default)$", p):
            tn = tn[:1]      # the rest only describes the failure
        m = re.search(r"Iterator::(all|any)$", p)
        if m and any(tn[:1]) and len(args) > 1:
            pol = self.preds(k, t, fr)
            if m.group(1) == "all" and pol == "only-normal":
                return [(("i", 1), True), (("i", 0), ust)]
            if m.group(1) == "any" and pol == "not-normal":
                return [(("i", 0), True), (("i", 1), ust)]
        if CLEAN.search(p) or not any(tn):
            return [(None, ust)]
        if "()" == rty or rty in ("bool", "usize"):
            return [(None, ust, self.smear(env, args) if len(args) > 1 and any(tn[1:]) else env)]
        return [(self.shape(rty), ust, self.smear(env, args) if len(args) > 1 and any(tn[1:]) else env)]

    def variant_kids(self, cur, adt, vi):
        if cur is None or cur[0] != "T":
            return ()
        pr = self.g.prog.adts.get(adt)
        n = len(pr["variants"][vi]["fields"]) if pr else 1
        return (T,) * n

    @staticmethod
    def shape(ty):
        return ("v", RESULT, 0, (T,)) if head(ty) == RESULT else T

    def smear(self, env, args):
        """the first argument, if a reference, is modified with the others"""
        e2 = dict(env)
        a = args[0]
        last = None
        while a is not None and a[0] == "r":
            last = a
            a = self.get_path(env, a[1], a[2])
        if last is not None:
            nv = self.set_path(e2.get(last[1]), last[2], T)
            if nv is not None:
                e2[last[1]] = nv
        return e2


def closure_polarity(prog):
    """which component predicate a closure computes: 'only-normal' (true only for Component::Normal), 'not-normal' (true for everything else)"""
    def f(k, t, fr):
        a = t["args"][1]
        ty = None
        pl = a.get("c") or a.get("m")
        if pl is not None:
            ty = fr.fn["locals"][pl[0]]["ty"]
        else:
            ty = (a.get("k") or {}).get("ty")
        m = None
        for q in prog.fns:
            if "{closure" in q and q.startswith(fr.path):
                if ty and prog.fns[q].get("clo_ty") == ty:
                    m = q
        cands = [m] if m else [q for q in prog.fns if q.startswith(fr.path + "::{closure")]
        res = set()
        for q in cands:
            res.add(_polarity(prog, q))
        return res.pop() if len(res) == 1 else None
    return f


def _polarity(prog, q):
    fn = prog.fns[q]
    if not any(COMP in l["ty"] for l in fn["locals"][:3]):
        return None
    comp = prog.adts.get(COMP)
    names = [v["name"] for v in comp["variants"]] if comp else ["Prefix", "RootDir", "CurDir", "ParentDir", "Normal"]
    out = {}
    g = Graph(prog, q, inline=lambda p, f: False)
    for i, n in enumerate(names):
        w = _Ret(g)
        arg = 2 if fn["argc"] >= 2 else 1
        val = ("v", COMP, i, ())
        env = {(g.root.id, arg): ("&", val) if fn["locals"][arg]["ty"].startswith("&") else val}
        w.run([(g.rpo[0], env, None, "in")])
        out[n] = w.vals
    escape = ("Prefix", "RootDir", "ParentDir")
    if all(out[n] == {0} for n in escape) and 1 in out["Normal"]:
        return "only-normal"
    if all(out[n] == {1} for n in escape) and 0 in out["Normal"]:
        return "not-normal"
    return None


class _Ret(Esp):
    def __init__(self, g):
        super().__init__(g)
        self.vals = set()

    def on_return(self, env, ust, node, rv):
        self.vals.add(rv[1] if rv is not None and rv[0] == "i" else None)


def run(ctx):
    prog = ctx.prog
    main = "storm_cli::main"
    if not ctx.need(main):
        return
    cg, ext = prog.callgraph()
    cli = [f for f in prog.reachable([main]) if f.startswith("storm_cli::") and "{closure" not in f]

    def has(f, pred):
        return any(pred(x) for h in prog.reachable([f]) if h.startswith("storm_cli::") for x in calls(h))

    def calls(h):
        out = []
        for b in prog.fns[h]["blocks"]:
            t = b["t"]
            if t["t"] == "call":
                k = t["f"].get("k") or {}
                d = t.get("dest")
                rty = prog.fns[h]["locals"][d[0]]["ty"] if d and (len(d) == 1 or not d[1]) else ""
                out.append((k.get("res") or k.get("fn") or "", rty))
        return out
    src = lambda x: x[0].startswith("mopaq::") and ("FileEntry" in x[1] or "alloc::string::String" in x[1])
    snk = lambda x: bool(SINK.search(x[0]))
    both = [f for f in cli if f != main and has(f, src) and has(f, snk)]
    roots = [f for f in both if not any(c in both and c != f for c in prog.reachable([f]))]
    for f in roots:
        g = Graph(prog, f, inline=lambda p, fr: p.startswith("storm_cli::"))
        ctx.functions |= {fr.path for fr in g.frames}
        w = Taint(g, closure_polarity(prog))
        w.run([(g.rpo[0], {}, False, "in")])
        ctx.count("sources_of_names", 1 if w.sources else 0)
        ctx.count("writing_calls", len(w.sinks))
        ctx.count("paths_followed", len(w.parent))
        if w.exceeded:
            ctx.violation("undecided:" + f, "too many paths in " + f)
        for node, st, m in w.bad:
            ctx.violation("escape:%s:%s" % (f, m), m + ": the archive chooses where the file is written", g.span(node.id), w.trail(st))
        for nid in w.sinks:
            ctx.sample("%s writes at %s only to paths made of the target and checked components" % (f, g.span(nid)[:2]))
    if not roots:
        ctx.notes.append("no function of the tool both lists an archive and writes files")
    ctx.floor("writing_calls", 1)
