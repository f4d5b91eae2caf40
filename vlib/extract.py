"""Builds the compiler driver and extracts facts (MIR etc.) of /repo's current working tree."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATES = ["mopaq", "storm", "storm_cli"]
# facts are keyed by these inputs only; anything else in /repo cannot influence the compiled program
INPUT_DIRS = ["mopaq/src", "storm-ffi/src", "storm-cli/src"]
INPUT_FILES = ["Cargo.toml", "Cargo.lock", "mopaq/Cargo.toml", "storm-ffi/Cargo.toml", "storm-cli/Cargo.toml"]


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET",
              "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_PROFILE_DEV_DEBUG"] = "0"
    return e


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode != 0:
        raise ExtractError("command failed: %s\n%s\n%s" % (" ".join(cmd), p.stdout[-2000:], p.stderr[-6000:]))
    return p.stdout


def sysroot():
    return _run(["rustc", "+nightly", "--print", "sysroot"], env=_env()).strip()


def build_driver():
    src = os.path.join(VERIF, "driver")
    h = hashlib.sha256()
    for f in sorted(glob.glob(src + "/src/*.rs")) + [src + "/Cargo.toml"]:
        h.update(open(f, "rb").read())
    hv = h.hexdigest()[:16]
    exe = os.path.join(BUILD, "mirfacts-" + hv)
    if not os.path.exists(exe):
        e = _env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver-target")
        _run(["cargo", "+nightly", "build", "--offline", "--manifest-path", src + "/Cargo.toml"], env=e, cwd=src)
        shutil.copy2(os.path.join(e["CARGO_TARGET_DIR"], "debug", "mirfacts"), exe + ".tmp")
        os.rename(exe + ".tmp", exe)
    return exe, hv


def source_files():
    out = []
    for d in INPUT_DIRS:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files]
    out += [os.path.join(REPO, f) for f in INPUT_FILES]
    return sorted(f for f in out if os.path.exists(f))


def tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    for f in source_files():
        h.update(f.encode())
        h.update(b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def extract():
    """returns (dir with <crate>.json, info)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0 = time.time()
        exe, hv = build_driver()
        key = tree_hash(hv)
        out = os.path.join(BUILD, "facts", key)
        if all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            return out, {"tree": key, "cached": True, "extract_s": 0.0}
        facts_root = os.path.join(BUILD, "facts")
        if os.path.isdir(facts_root):
            for d in os.listdir(facts_root):
                shutil.rmtree(os.path.join(facts_root, d), ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(BUILD, "target")
        e = _env()
        e["CARGO_TARGET_DIR"] = target
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["MIRFACTS_OUT"] = tmp
        e["MIRFACTS_CRATES"] = ",".join(CRATES)
        e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib") + ":" + e.get("LD_LIBRARY_PATH", "")
        # a fresh fingerprint for the workspace members, or cargo would silently skip the wrapper
        for pat in (".fingerprint/mopaq-*", ".fingerprint/storm-*", "build/mopaq", "build/storm-*"):
            for d in glob.glob(os.path.join(target, "debug", pat)):
                shutil.rmtree(d, ignore_errors=True)
        ffi_deps = ["libc", "log", "md-5", "crc32fast"]
        cmd = ["cargo", "+nightly", "check", "--offline", "--locked", "--message-format=json",
               "--manifest-path", os.path.join(REPO, "Cargo.toml"), "-p", "mopaq", "-p", "storm-cli", "--lib", "--bins"]
        for d in ffi_deps:
            cmd += ["-p", d]
        msgs = _run(cmd, env=e, cwd=REPO)
        ext, dirs = {}, set()
        for line in msgs.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact" and {"lib", "proc-macro", "rlib"} & set(m["target"]["kind"]):
                for f in m["filenames"]:
                    dirs.add(os.path.dirname(f))
                    if f.endswith(".rmeta"):
                        ext[m["target"]["name"].replace("-", "_")] = f
        args = [exe, "--crate-name", "storm", "--edition=2021", os.path.join(REPO, "storm-ffi/src/lib.rs"),
                "--crate-type", "lib", "--emit=metadata", "--out-dir", tmp, "--cap-lints", "allow",
                "--cfg", 'feature="default"']
        for d in sorted(dirs):
            args += ["-L", "dependency=" + d]
        for name in ("mopaq", "libc", "log", "md5", "crc32fast"):
            if name in ext:
                args += ["--extern", "%s=%s" % (name, ext[name])]
        e2 = dict(e)
        e2["CARGO_PKG_VERSION"] = "0.1.0"
        e2["CARGO_MANIFEST_DIR"] = os.path.join(REPO, "storm-ffi")
        _run(args, env=e2, cwd=REPO)
        for c in CRATES:
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise ExtractError("no facts were produced for crate " + c)
        os.rename(tmp, out)
        return out, {"tree": key, "cached": False, "extract_s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    print(extract())
