#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/<id> from a specification, confirms it in a scratch copy
of /repo, and says whether the check of its property catches it.

plant.py SPEC [ID...]; SPEC is Python defining PLANTS = [dict(id, property, needs, breaks,
edits=[(path, old, new)], demo=Rust source, profile="debug"|"release", reject=bool), ...].
With `reject`, the demonstration shows that the program compiles although it must not."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = "/repo"
SEEDED = "/verif/seeded"
BASE = "f977cb8"

DEMO = """#!/bin/bash
# Run with the repository as working directory: exit 0 if the property holds here.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
ordinal-map = {{ path = "$repo/ordinal-map" }}
EOF
export CARGO_TARGET_DIR=$work/target CARGO_NET_OFFLINE=true
cd "$work" || exit 3
{run}
"""
RUN = "cargo run --offline --quiet{flags}\n"
MIRI = """export MIRI_SYSROOT=$work/sysroot XDG_CACHE_HOME=$work/cache RUSTUP_TOOLCHAIN=nightly MIRIFLAGS="{miriflags}"
cargo miri setup --target {target} >setup.log 2>&1 || { tail -5 setup.log; exit 3; }
cargo miri run --offline --quiet --target {target}
"""
TARGETS = {"x86_64": "x86_64-unknown-linux-gnu", "i686": "i686-unknown-linux-gnu", "s390x": "s390x-unknown-linux-gnu"}
REJECT = """cargo build --offline --quiet --features twin || { echo "the program with the right size does not compile"; exit 3; }
if cargo build --offline --quiet{flags} 2>err; then
    echo "a program compiles that must not"
    exit 1
fi
grep -q 'error' err
"""


def sh(argv, cwd=None, timeout=900, env=None):
    return subprocess.run(argv, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, **(env or {})})


def base_has(path, text):
    r = sh(["git", "-C", REPO, "show", f"{BASE}:{path}"])
    return r.returncode == 0 and text in r.stdout


def make(p):
    d = f"{SEEDED}/{p['id']}"
    os.makedirs(d, exist_ok=True)
    flags = " --release" if p.get("profile") == "release" else ""
    run = REJECT if p.get("reject") else MIRI if p.get("miri") else RUN
    run = run.replace("{flags}", flags).replace("{miriflags}", p.get("miriflags", ""))
    demo = DEMO.format(run=run.replace("{target}", TARGETS.get(p.get("miri"), "")))
    if p.get("reject"):
        demo = demo.replace("EOF\nexport", '[features]\ntwin = []\nEOF\nexport')
    open(f"{d}/demo.sh", "w").write(demo)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.rs", "w").write(p["demo"].lstrip("\n"))
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)
    return d


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    validate = "--validate" in sys.argv  # without running the check
    for p in ns["PLANTS"]:
        if only and p["id"] not in only:
            continue
        d = make(p)
        work = tempfile.mkdtemp(prefix="plant-")
        copy = f"{work}/repo"
        notes = []
        try:
            shutil.copytree(REPO, copy, symlinks=True, ignore=shutil.ignore_patterns("target"))
            demo = lambda: sh([f"{d}/demo.sh"], cwd=copy, timeout=300)  # noqa: E731
            r = demo()
            notes.append("demo passes" if r.returncode == 0 else f"DEMO FAILS UNPATCHED {r.returncode}: {r.stderr[-600:]}{r.stdout[-300:]}")
            for path, old, new in p["edits"]:
                s = open(f"{copy}/{path}").read()
                assert old in s, f"{p['id']}: text not found in {path}: {old[:70]}"
                lines = [x for x in old.splitlines() if x.strip() and x not in new.splitlines()]
                for x in lines:
                    if not base_has(path, x):
                        notes.append(f"NOT AN ORIGINAL LINE: {x.strip()}")
                if not lines:
                    notes.append("adds only")
                open(f"{copy}/{path}", "w").write(s.replace(old, new, 1))
            diff = sh(["git", "-C", copy, "diff"]).stdout
            open(f"{d}/patch.diff", "w").write(diff)
            t = sh(["cargo", "test", "--offline", "-q", "--workspace", "--all-features"], cwd=copy,
                   env={"CARGO_TARGET_DIR": "/tmp/plant-target"})
            notes.append("tests pass" if t.returncode == 0 else "TESTS FAIL: " + (t.stdout + t.stderr)[-500:])
            r = demo()
            notes.append("demo fails" if r.returncode else "DEMO PASSES PATCHED")
            if r.returncode:
                pass
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if validate:
            print(f"{p['id']:28} {p['property']}  " + "; ".join(n for n in notes if n), flush=True)
            continue
        # The check, against /repo itself.
        assert not sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip(), "/repo is not clean"
        try:
            a = sh(["git", "-C", REPO, "apply", f"{d}/patch.diff"])
            assert a.returncode == 0, a.stderr
            start = time.time()
            r = sh([sys.executable, "/verif/run.py", p["property"], "quick"], timeout=1500)
            verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, f"RC {r.returncode}")
            notes.append(f"{verdict} {time.time() - start:.0f}s {(r.stdout.splitlines() or [''])[0][:150]}")
        finally:
            sh(["git", "-C", REPO, "checkout", "--", "."])
        print(f"{p['id']:28} {p['property']}  " + "; ".join(n for n in notes if n), flush=True)


main()
