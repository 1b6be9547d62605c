#!/usr/bin/env python3
"""Development aid: applies one textual change at a time to /repo, runs checks, undoes it.

mutate.py FILE [NAME...]: FILE is Python defining MUTANTS = [(name, "C15,C16", path, old, new), ...]
(old/new may be lists of pairs applied in order when `new` is None)."""
import re
import subprocess
import sys
import time

REPO = "/repo"


def git(*a):
    return subprocess.run(["git", "-C", REPO, *a], capture_output=True, text=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not git("status", "--porcelain").stdout.strip(), "/repo is not clean"
    for name, checks, path, old, new in ns["MUTANTS"]:
        if only and name not in only:
            continue
        pairs = old if new is None else [(path, old, new)]
        try:
            for p, o, n in pairs:
                f = f"{REPO}/{p}"
                s = open(f).read()
                assert o in s, f"{name}: text not found: {o[:60]}"
                open(f, "w").write(s.replace(o, n, 1))
            t = subprocess.run(["cargo", "test", "--offline", "-q", "--workspace", "--all-features"], cwd=REPO, capture_output=True, text=True,
                               env={**__import__("os").environ, "CARGO_TARGET_DIR": "/tmp/mutate-target"})
            m = re.findall(r"test result: (\w+)", t.stdout)
            tests = "tests pass" if t.returncode == 0 else "TESTS FAIL" if m else "DOES NOT BUILD"
            for c in checks.split(","):
                a = time.time()
                r = subprocess.run([sys.executable, "/verif/run.py", c, "quick"], capture_output=True, text=True)
                verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, f"rc {r.returncode}")
                print(f"{name:32} {tests:14} {c} {verdict} {time.time() - a:.0f}s  {r.stdout.splitlines()[0][:160] if r.stdout else r.stderr[-300:]}", flush=True)
        finally:
            git("checkout", "--", ".")


main()
