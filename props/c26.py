import re
from common import *

RULE = ("Whole-crate query over the compiled library: no static with interior mutability or `static mut`, no thread-local, no "
        "process-global setter (environment, current directory, panic hook, global logger) reachable from any library function, no "
        "unsafe block or unsafe fn in mopaq, and Archive / ArchiveBuilder hold no shared-ownership cell (Rc/Arc/RefCell/Mutex/Atomic/raw pointer), so "
        "two archives can never observe each other.")

INTERIOR = re.compile(r"\b(Cell|RefCell|UnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell|Mutex|RwLock|Atomic\w+|Once|SyncUnsafeCell|Lazy|ThreadLocal|LocalKey|DashMap|ArcSwap)\b|^\*mut|\*mut ")
SHARED = re.compile(r"\b(Rc|Arc|Weak|Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w+|OnceCell|OnceLock|LazyLock|NonNull)\b|\*(mut|const) ")
GLOBAL = re.compile(r"^std::env::(set_var|remove_var|set_current_dir)|^std::panic::(set_hook|take_hook)|^log::set_(boxed_)?logger|^log::set_max_level"
                    r"|^std::process::(exit|abort)|^std::thread::local::LocalKey|^std::thread::.*spawn")


def run(ctx):
    prog = ctx.prog
    for p, s in prog.statics.items():
        if not p.startswith("mopaq::"):
            continue
        ctx.count("library_statics")
        if s.get("mut") or INTERIOR.search(s["ty"]) or s.get("freeze") is False:
            ctx.violation("static:" + p, "the library keeps process-wide mutable state in %s: %s" % (p, s["ty"]), s.get("span"))
    for ub in prog.unsafe_blocks:
        crate, sp = ub[0], ub[1]
        if crate == "mopaq":
            ctx.violation("unsafe:%s" % sp[0], "unsafe block in the library; memory safety is no longer guaranteed by the type checker", sp)
    for p, f in prog.fns.items():
        if f["crate"] != "mopaq":
            continue
        ctx.count("library_functions")
        if f.get("unsafe"):
            ctx.violation("unsafe-fn:" + p, "unsafe fn %s in the library" % p, f["span"])
    cg, ext = prog.callgraph()
    for f in ext:
        if prog.fns[f]["crate"] != "mopaq":
            continue
        for (p, sp, bb, k) in ext[f]:
            ctx.count("external_calls_judged")
            if GLOBAL.search(p):
                ctx.violation("global:%s:%s" % (f, p), "%s changes process-wide state through %s" % (f, p), sp)
    # ownership: the data reachable from the two handle types
    seen, todo = set(), ["mopaq::archive::Archive", "mopaq::builder::ArchiveBuilder"]
    for a in todo:
        if a not in prog.adts:
            ctx.violation("anchor-missing:" + a, "type %s not found" % a)
    while todo:
        a = todo.pop()
        if a in seen or a not in prog.adts:
            continue
        seen.add(a)
        for v in prog.adts[a]["variants"]:
            for fl in v["fields"]:
                ty = fl[1]
                ctx.count("handle_fields")
                m = SHARED.search(ty)
                if m:
                    ctx.violation("shared:%s.%s" % (a, fl[0]), "field %s of %s has shared or interior-mutable type %s" % (fl[0], a, ty))
                for b in prog.adts:
                    if b in ty:
                        todo.append(b)
    ctx.count("handle_types", len(seen))
    ctx.floor("library_functions", 200)
    ctx.floor("handle_types", 4)
