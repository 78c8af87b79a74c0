#!/usr/bin/env python3
"""Validate planted bugs in seeded/ and run checks against them (development tool; no check uses it).
  plant.py make MODULE.py     write seeded/<id>/ from a module's SEEDS list
  plant.py valid ID...        patch applies, builds, passes the stable tests; demo passes without and fails with it
  plant.py catch ID... [-c C01,C02]   run the property's check (or the given ones) with the patch applied
/repo is changed while this runs and restored afterwards."""
import json, os, subprocess, sys, tempfile, importlib.util, time, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SEEDED = os.path.join(V, "seeded")
REPO = "/repo"

DEMO = '''#!/bin/bash
# run in the repository; exit 0 if the property holds for what demo.rs tries
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=@TOOL@
unset NO_COLOR ALWAYS_COLOR CLICOLOR_FORCE FORCE_COLOR CLICOLOR COLORTERM RUSTFLAGS CARGO_TARGET_DIR
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[features]
std = ["colorz/std"]
alloc = ["colorz/alloc"]
sc = ["colorz/supports-color"]
strip = ["colorz/strip-colors"]
[dependencies]
colorz = { path = "$repo" }
[workspace]
EOF
cd "$t" || exit 1
@RUN@
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **kw)


def make(mod):
    spec = importlib.util.spec_from_file_location("m", mod)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for s in m.SEEDS:
        d = os.path.join(SEEDED, s["id"])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory() as t:
            sh(f"git -C {REPO} archive HEAD | tar x -C {t}")
            sh("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", cwd=t)
            for f, old, new in s["edits"]:
                p = os.path.join(t, f)
                src = open(p).read()
                n = src.count(old)
                assert n == 1, f"{s['id']}: {f}: {n} matches of {old!r}"
                open(p, "w").write(src.replace(old, new))
            diff = sh("git diff", cwd=t).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        runs = s.get("run", "cargo run --offline -q || exit 1")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@RUN@", runs).replace("@TOOL@", s.get("tool", "stable")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip("\n"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", s["id"])


def clean():
    sh(f"git -C {REPO} checkout -- .")
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "repo not clean"


def demo(i):
    with tempfile.TemporaryDirectory() as t:
        for f in os.listdir(os.path.join(SEEDED, i)):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(SEEDED, i, f), t)
        t0 = time.time()
        r = sh(["bash", os.path.join(t, "demo.sh")], cwd=REPO, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-700:], time.time() - t0


def apply(i):
    r = sh(["git", "-C", REPO, "apply", os.path.join(SEEDED, i, "patch.diff")])
    assert r.returncode == 0, r.stderr


def valid(ids):
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or json.load(open("/opt/vp/BASELINE.json"))["passed"])
    for i in ids:
        clean()
        a = demo(i)
        try:
            apply(i)
            b = demo(i)
            t = sh("bash /opt/vp/build.sh >/tmp/plant-build.log 2>&1 && bash /opt/vp/test.sh /tmp/plant-out.json")
            got = set(json.load(open("/tmp/plant-out.json"))["passed"]) if os.path.exists("/tmp/plant-out.json") else set()
        finally:
            clean()
        miss = stable - got
        ok = a[0] == 0 and b[0] != 0 and not miss
        print(("ok  " if ok else "BAD ") + i, f"clean {a[0]} ({a[2]:.0f}s) patched {b[0]} ({b[2]:.0f}s) tests missing {len(miss)}", flush=True)
        if a[0] != 0:
            print("  clean demo:", a[1])
        if b[0] == 0 or not ok or "error" in b[1]:
            print("  patched demo:", b[1])
        if miss:
            print("  ", sorted(miss)[:5], t.stdout[-600:])


def catch(ids, checks):
    for i in ids:
        p = json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
        for c in checks or [p]:
            clean()
            try:
                apply(i)
                t0 = time.time()
                r = sh(["python3", "run.py", c], cwd=V, timeout=1000)
            finally:
                clean()
            lines = [l for l in r.stdout.splitlines() if l.startswith("violated")][:1] or r.stdout.splitlines()[-2:]
            print(("CAUGHT " if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout else f"missed({r.returncode}) ") + f"{i} by {c} {time.time()-t0:.0f}s:", (" ".join(lines))[:260], flush=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    checks = None
    if "-c" in a:
        k = a.index("-c")
        checks = a[k + 1].split(",")
        a = a[:k] + a[k + 2:]
    if a == ["all"]:
        a = sorted(os.listdir(SEEDED))
    {"make": lambda: make(a[0]), "valid": lambda: valid(a), "catch": lambda: catch(a, checks)}[sys.argv[1]]()
