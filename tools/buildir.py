#!/usr/bin/env python3
"""Emits LLVM IR (harness crate, repository subset, dependencies, std) from /repo's current tree and writes the list of
modules to .work/ir.list. Only the artifacts cargo reports for this build are used."""
import json, os, re, subprocess, sys, time, fcntl
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkstd
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.path.join(V, ".work")

def build():
    os.makedirs(W, exist_ok=True)
    lock = open(os.path.join(W, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t = time.time()
    subprocess.run([sys.executable, os.path.join(V, "tools/subset.py")], check=True)
    std = mkstd.main()
    env = dict(os.environ, __CARGO_TESTS_ONLY_SRC_ROOT=std, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true",
               RUSTFLAGS="--emit=llvm-ir -Zub-checks=no -Cno-vectorize-loops -Cno-vectorize-slp -Awarnings")
    for k in list(env):
        if k.startswith("CARGO_PROFILE") or k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
            del env[k]
    r = subprocess.run(["cargo", "build", "--release", "--lib", "-Zbuild-std=std,panic_unwind", "--target",
                        "x86_64-unknown-linux-gnu", "--offline", "--message-format=json",
                        "--target-dir", os.path.join(W, "ir")],
                       cwd=os.path.join(V, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    dirs = []
    for line in r.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith(".rlib") and "/panic_abort/" not in f and "/proc_macro/" not in f and "/x86_64-unknown-linux-gnu/" in f:
                    dirs.append(os.path.dirname(f))
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            sys.stderr.write(m["message"].get("rendered") or "")
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-4000:])
        return None
    out = []
    for d in sorted(set(dirs)):
        groups = {}
        for f in os.listdir(d):
            if not f.endswith(".ll"):
                continue
            m = re.search(r"\.([0-9a-z]{5,9})\.rcgu\.ll$", f)
            g = m.group(1) if m and "cgu." not in f.rsplit(".rcgu", 1)[0].rsplit("-", 1)[-1] else ""
            groups.setdefault(g, []).append(os.path.join(d, f))
        if not groups:
            continue
        best = max(groups, key=lambda g: max(os.path.getmtime(f) for f in groups[g]))
        for g, fs in groups.items():
            if g == best:
                out += sorted(fs)
            else:
                for f in fs:
                    os.unlink(f)
    # the harness crate first: entry points and stubs are looked up from module 0
    out.sort(key=lambda f: (0 if "/fharness/" in f else 1 if "/ferrite/" in f else 2, f))
    lst = os.path.join(W, "ir.list")
    tmp = lst + ".tmp"
    with open(tmp, "w") as f:
        f.write("\n".join(out) + "\n")
    os.replace(tmp, lst)
    return time.time() - t

if __name__ == "__main__":
    t = build()
    if t is None:
        sys.exit(2)
    print("ir built in %.1fs" % t)
