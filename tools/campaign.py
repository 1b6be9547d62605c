#!/usr/bin/env python3
"""Development aid: systematic small mutations of /repo's sources, in copies under /tmp/camp.

campaign.py list            mutants, one per line
campaign.py run W [N...]    W workers: those that build and pass the tests are given to the native
                            programs at a small scale; results go to /tmp/camp/results.jsonl"""
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import threading

REPO, VERIF, CAMP = "/tmp/camp/base", "/verif", "/tmp/camp"  # base: git archive HEAD
OPS = [
    (r"(?<![<>=!-])<(?=[ ])(?! ?=)", ["<="]), (r" <= ", [" < "]), (r" > (?=\d)", [" >= "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]), (r" \+ (?!\d|Clone|Debug|\w+ *[,{:>]|Ordinal)", [" - "]), (r" - (?!\d|>)", [" + "]),
    (r" % ", [" / "]), (r" / ", [" % "]), (r" \* ", [" + "]), (r" \|= ", [" = ", " ^= "]), (r" &= ", [" = "]), (r" \+= ", [" = ", " -= "]), (r" /= ", [" %= "]),
    (r"\bnext\(\)", ["next_back()"]), (r"\bnext_back\(\)", ["next()"]),
    (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]), (r"\bis_empty\(\)", ["len() == 1", "len() > 0"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r"!(?=self|f\(|prev|\()", [""]), (r"if (?!let)", ["if !"]),
    (r"\btrailing_zeros\(\)", ["leading_zeros()"]), (r"\bleading_zeros\(\)", ["trailing_zeros()"]),
    (r"\b0\b(?!\.\.)", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b(127|32767|2147483647|64|2|3|0x800|0xd800)\b", [lambda m: m + " + 1", lambda m: m + " - 1"]),
    (r"\.max\(1\)", [""]), (r"u64::BITS", ["u32::BITS"]), (r"\b1 <<", ["1u32 as u64 <<", "2 <<"]), (r">> ", ["<< "]),
    (r"\bORDINAL_SIZE\b(?=[^:]*[;,){}]?$)", ["ORDINAL_SIZE / 2"]), (r"\.rev\(\)", [""]), (r"\.reverse\(\)", [".rotate_left(0)"]),
    (r"\.take\(\)", [".as_mut().map(|_| unreachable!())"]), (r"mem::take\(v\)", ["v.take().filter(|_| false)"]),
    (r"\bsuccess, failure\b", ["failure, failure", "success, Ordering::Relaxed", "Ordering::SeqCst, Ordering::Relaxed", "Ordering::Relaxed, Ordering::Relaxed"]),
    (r"\(ordering\)", ["(Ordering::Relaxed)", "(Ordering::SeqCst)"]), (r", ordering\)", [", Ordering::Relaxed)"]),
    (r"old_ord, new_ord", ["new_ord, old_ord", "old_ord, old_ord"]), (r"\bOk\(v\) =>", ["Ok(v) if v != 1 =>"]), (r"\.count\(\)", [".count().saturating_sub(1)"]),
    (r"\.ok\(\)\?", [".unwrap()"]), (r"\)\?", [").unwrap()"]), (r"checked_(add|sub|rem|mul)\(", [lambda m: m.replace("checked_", "Some(0usize).and(Some(1usize)).map(|_| 0usize).unwrap_or(0).checked_")]),
    (r"debug_map", ["debug_list"]), (r"debug_set", ["debug_list"]), (r"\bself\.next\b(?=[,)]| \+)", ["0"]), (r"\brange\.(start|end)\b", [lambda m: "range.end" if "start" in m else "range.start"]),
    (r"\.replace\(value\)", [".insert(value); None"]), (r"replace\(&mut ", ["swap(&mut "]), (r"\.clone\(\)", [".clone().clone()"]),
    (r"\.size_hint\(\)", [".size_hint().min((0, Some(0)))"]), (r"Some\(self\.iter\.len\(\)\)", ["None", "Some(self.iter.len() / 2)", "Some(usize::MAX)"]), (r"\(0, Some", ["(1, Some"]),
]
DELETE = re.compile(r"^\s+(self\.|map\.|set\.|array\.|n |r |stmts\.|const \{|mem::forget|builder|let _check|assert!|debug_assert|ptr::|for _ in self)[^{]*(\{[^{}]*\}[^{}]*)?;?\s*(\{\})?$")


def sources():
    for root in ("ordinal-map/src", "ordinal-map-derive/src"):
        for d, _, fs in os.walk(f"{REPO}/{root}"):
            if "/tests" in d:
                continue
            for f in sorted(fs):
                yield os.path.relpath(f"{d}/{f}", REPO)


def mutants():
    out = []
    for path in sources():
        lines = open(f"{REPO}/{path}").read().split("\n")
        for i, line in enumerate(lines):
            s = line.strip()
            if s == "#[cfg(test)]" and i + 1 < len(lines) and lines[i + 1].startswith("mod tests"):
                break
            if s.startswith(("//", "use ", "#", "impl", "pub fn", "fn ", "pub(crate) fn", "type ", "pub struct", "pub mod", "mod ", "where")):
                continue
            seen = set()
            for pat, reps in OPS:
                for m in re.finditer(pat, line):
                    for rep in reps:
                        t = rep(m.group(0)) if callable(rep) else rep
                        new = line[:m.start()] + t + line[m.end():]
                        if new != line and new not in seen:
                            seen.add(new)
                            out.append((path, i, line, new))
            if DELETE.match(line) and s.endswith((";", "{}")):
                out.append((path, i, line, ""))
    return out


BINS = ["c02", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c19", "c01", "c04", "c15", "c17", "c18", "c22"]


def sh(argv, cwd, env=None, timeout=600):
    try:
        r = subprocess.run(argv, cwd=cwd, capture_output=True, text=True, timeout=timeout, env={**os.environ, "CARGO_NET_OFFLINE": "true", **(env or {})}, errors="replace")
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, ""


def one(w, base, m):
    path, i, old, new = m
    f = f"{base}/repo/{path}"
    text = open(f"{REPO}/{path}").read()
    lines = text.split("\n")
    assert lines[i] == old
    lines[i] = new
    open(f, "w").write("\n".join(lines))
    try:
        rc, out = sh(["cargo", "test", "--offline", "-q", "--workspace", "--all-features"], f"{base}/repo", {"CARGO_TARGET_DIR": f"{base}/ttarget"}, 120)
        if rc != 0:
            return "tests" if "test result" in out or rc == 124 else "build"
        rc, out = sh(["cargo", "build", "--offline", "-q", "--profile", "chk", "--no-default-features", "--features", "cat"] + [x for b in BINS for x in ("--bin", b)],
                     f"{base}/harness", {"CARGO_TARGET_DIR": f"{base}/target"}, 900)
        if rc != 0:
            return "harness does not build: " + "".join(x for x in out.split("\n") if x.startswith("error"))[:200]
        for b in BINS:
            rc, out = sh([f"{base}/target/chk/{b}", "--scale", "15", "--out", f"{base}/out.json"], base, {"VERIF_SEED": "1", "VERIF_TIER": "quick"}, 300)
            if rc != 0:
                return f"caught {b} rc {rc}"
        rc, out = sh(["cargo", "run", "--offline", "-q", "--profile", "chk"], f"{base}/derived", {"CARGO_TARGET_DIR": f"{base}/dtarget", "DERIVED_DIR": f"{base}/dsrc"}, 900)
        if rc != 0:
            return f"caught derived rc {rc}"
        return "SURVIVES"
    finally:
        open(f, "w").write(text)


def worker(w, q, lock):
    base = f"{CAMP}/w{w}"
    if not os.path.exists(base):
        os.makedirs(base)
        shutil.copytree(REPO, f"{base}/repo", ignore=shutil.ignore_patterns("target", ".git"))
        for c in ("harness", "derived"):
            shutil.copytree(f"{VERIF}/{c}", f"{base}/{c}", ignore=shutil.ignore_patterns("target"))
            t = f"{base}/{c}/Cargo.toml"
            s = open(t).read().replace("/repo/", f"{base}/repo/").replace("../../repo/", f"{base}/repo/")
            open(t, "w").write(s)
        sh([sys.executable, f"{VERIF}/derived/gen.py", "1", "60", f"{base}/dsrc"], base)
    while True:
        try:
            n, m = q.get_nowait()
        except queue.Empty:
            return
        try:
            v = one(w, base, m)
        except Exception as e:  # noqa
            v = f"error {e}"
        with lock:
            with open(f"{CAMP}/results.jsonl", "a") as f:
                f.write(json.dumps([n, v, m[0], m[1] + 1, m[2].strip(), m[3].strip()]) + "\n")


def main():
    ms = list(enumerate(mutants()))
    if sys.argv[1] == "list":
        for n, (p, i, o, x) in ms:
            print(n, p, i + 1, o.strip(), "=>", x.strip())
        return
    only = {int(x) for x in sys.argv[3:]}
    done = set()
    if os.path.exists(f"{CAMP}/results.jsonl") and not only:
        done = {json.loads(x)[0] for x in open(f"{CAMP}/results.jsonl")}
    q = queue.Queue()
    for n, m in ms:
        if n not in done and (not only or n in only):
            q.put((n, m))
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(w, q, lock)) for w in range(int(sys.argv[2]))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
