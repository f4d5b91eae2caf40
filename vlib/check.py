"""python3 vlib/check.py <property id>: runs the static analysis deciding one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
sys.path.insert(0, os.path.join(VERIF, "props"))
sys.setrecursionlimit(20000)


class Ctx:
    def __init__(self, prog, tier):
        self.prog, self.tier = prog, tier
        self.viol, self.counts, self.samples, self.notes, self.assume = [], {}, [], [], []
        self._g, self._i = {}, {}
        self.functions = set()

    def violation(self, key, msg, where=None, trail=None):
        """key: stable identity without line numbers; msg: the construct and the rule"""
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append({"key": key, "message": msg, "where": fmt_span(where), "trail": [trail] if isinstance(trail, str) else [str(x) for x in (trail or [])]})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def need(self, path):
        """anchor: a public item the property is about"""
        f = self.prog.fns.get(path)
        if f is None:
            self.violation("anchor-missing:" + path, "the function %s, which this property is about, no longer exists; the rule has nothing to decide" % path)
        return f

    def floor(self, name, n):
        if self.counts.get(name, 0) < n:
            self.violation("floor:" + name, "only %d %s were found where at least %d exist on the confirmed tree; the rule would pass vacuously"
                           % (self.counts.get(name, 0), name, n))

    def analysed(self, paths):
        self.functions |= set(paths)


def fmt_span(sp):
    if not sp:
        return None
    if isinstance(sp, str):
        return sp
    return "%s:%s" % (sp[0], sp[1])


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    from extract import extract, ExtractError
    import mir
    ctx = Ctx(None, tier)
    rule = ""
    info = {}
    try:
        d, info = extract()
        ctx.prog = mir.Program(d)
        mod = importlib.import_module(pid.lower())
        rule = mod.RULE
        mod.run(ctx)
    except ExtractError as e:
        ctx.violation("no-program", "the tree could not be compiled, so the property cannot be established: " + str(e)[-1500:])
    except Exception as e:
        ctx.violation("analysis-failed", "the analysis met a construct it cannot decide (%s); the property is not established\n%s"
                      % (e, traceback.format_exc()[-3000:]))
    kf = os.path.join(VERIF, "known_findings.json")
    known = {}
    if os.path.exists(kf):
        for x in json.load(open(kf)).get("findings", []):
            if x["property"] == pid:
                known[x["key"]] = x
    new = []
    for v in ctx.viol:
        if v["key"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[v["key"]]["what"]))
        else:
            new.append(v)
    counts = dict(ctx.counts)
    if ctx.functions:
        counts["functions_analysed"] = len(ctx.functions)
    cov = {"explanation": rule, "counts": counts, "samples": ctx.samples[:12],
           "program": {"workspace_functions": len(ctx.prog.fns) if ctx.prog else 0,
                       "basic_blocks": sum(len(f["blocks"]) for f in ctx.prog.fns.values()) if ctx.prog else 0,
                       "tree": info.get("tree")}}
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": ctx.assume or ["rustc's MIR of the pinned nightly toolchain is the program that runs",
                                        "callees outside the workspace behave as their documentation says"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.json")
        json.dump({"property": pid, "rule": rule, "violations": new}, open(rp, "w"), indent=1)
        for v in new:
            print("  %s: %s%s" % (v["key"], v["message"], (" [%s]" % v["where"]) if v["where"] else ""))
            if v["trail"]:
                print("    path: " + " -> ".join(v["trail"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK property=%s %s (%.1fs)" % (pid, json.dumps(counts), time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
