#!/usr/bin/env python3
"""Runs the check of one property: run.py ID [quick|thorough], or run.py setup.

Exit 0: held on everything executed. Exit 1: violated, with a VIOLATION line.
Exit 2: inconclusive (a build or run did not give an answer).
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
CACHE = os.path.join(VERIF, ".cache")
HARNESS = os.path.join(VERIF, "harness")
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly"
HOST = "x86_64-unknown-linux-gnu"
MIRI_TARGETS = {
    "x86_64": HOST,
    "i686": "i686-unknown-linux-gnu",
    "s390x": "s390x-unknown-linux-gnu",
}
SEED = int(os.environ.get("VERIF_SEED") or 1)
START = time.time()


class Violation(Exception):
    def __init__(self, message, detail=None, replay=None):
        super().__init__(message)
        self.message = message
        self.detail = detail or {}
        self.replay = replay or {}


class Inconclusive(Exception):
    pass


def base_env():
    keep = ("PATH", "HOME", "LANG", "USER", "RUSTUP_HOME", "CARGO_HOME", "TMPDIR")
    env = {k: v for k, v in os.environ.items() if k in keep}
    env.setdefault("HOME", "/root")
    env["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", "")
    env.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUST_BACKTRACE="0",
        VERIF_SEED=str(SEED),
    )
    return env


def drop_fingerprints(target):
    """Cargo notices changes by mtime only; make it hand our crates to rustc."""
    for depth in ("*", "*/*", "*/*/*"):
        for crate in ("ordinal-map", "harness", "derived"):
            # The layout of stable, and that of nightly.
            for pat in (f"{depth}/.fingerprint/{crate}*", f"{depth}/build/{crate}*/*/fingerprint"):
                for d in glob.glob(os.path.join(target, pat)):
                    shutil.rmtree(d, ignore_errors=True)


class Config:
    """How to build the harness: one target directory each."""

    def __init__(self, name, toolchain=STABLE, profile="chk", rustflags="", target=None,
                 build_std=False, features="cat", crate=HARNESS, env=None):
        self.name = name
        self.toolchain = toolchain
        self.profile = profile
        self.rustflags = rustflags
        self.target = target
        self.build_std = build_std
        self.features = features
        self.crate = crate
        self.extra = env or {}

    @property
    def dir(self):
        return os.path.join(TARGET, self.name)

    def env(self):
        env = base_env()
        env["CARGO_TARGET_DIR"] = self.dir
        env["RUSTUP_TOOLCHAIN"] = self.toolchain
        if self.rustflags:
            env["RUSTFLAGS"] = self.rustflags
        env.update(self.extra)
        return env

    def args(self, what):
        a = ["cargo", what, "--offline", "--quiet", "--profile", self.profile]
        if self.target:
            a += ["--target", self.target]
        if self.build_std:
            a += ["-Zbuild-std"]
        if self.crate == HARNESS:
            a += ["--no-default-features"]
            if self.features:
                a += ["--features", self.features]
        return a

    def binary(self, name):
        parts = [self.dir]
        if self.target:
            parts.append(self.target)
        return os.path.join(*parts, self.profile, name)

    def library_builds(self):
        """Does the library under test itself compile in this configuration?"""
        a, skip = [], False
        for x in self.args("build") + ["-p", "ordinal-map"]:  # features are the harness's own
            if x in ("--features", "--no-default-features"):
                skip = x == "--features"
            elif skip:
                skip = False
            else:
                a.append(x)
        r = call(a, cwd=self.crate, env=self.env(), timeout=600)
        return r.rc == 0

    def prepare(self):
        pass

    def usage_compiles(self):
        """Whether the program would compile without what it tests. None: cannot tell."""
        return None

    def build(self, bins):
        os.makedirs(self.dir, exist_ok=True)
        self.prepare()
        drop_fingerprints(self.dir)
        a = self.args("build")
        for b in bins:
            a += ["--bin", b]
        r = call(a, cwd=self.crate, env=self.env(), timeout=1500)
        if r.rc == 0:
            return
        if r.timed_out or r.rc < 0 or r.rc > 101:
            raise Inconclusive(f"building {self.name}: {r.how()}\n{r.err[-2000:]}")
        log = r.err
        if not self.library_builds():
            raise Inconclusive(f"the library does not compile ({self.name}):\n{log[-3000:]}")
        if self.usage_compiles() is False:
            raise Inconclusive(f"the program does not compile even without the library's part ({self.name}):\n{log[-3000:]}")
        raise Violation(
            f"a program that uses the library as documented no longer compiles ({self.name})",
            {"compiler": log[-6000:]},
            {"command": " ".join(a), "cwd": self.crate},
        )


class Derived(Config):
    """A program of generated type definitions."""

    narrow = False

    def __init__(self, name, seed, count, **kw):
        Config.__init__(self, name, crate=os.path.join(VERIF, "derived"), features="", **kw)
        self.seed, self.count = seed, count
        self.extra["DERIVED_DIR"] = os.path.join(TARGET, name + "-src")

    def prepare(self):
        r = call([sys.executable, os.path.join(VERIF, "derived", "gen.py"), str(self.seed), str(self.count),
                  self.extra["DERIVED_DIR"]] + (["32"] if self.narrow else []))
        super().prepare()
        if r.rc != 0:
            raise Inconclusive(f"generating definitions: {r.how()}\n{r.err[-2000:]}")

    def usage_compiles(self):
        env = self.env()
        env["CARGO_TARGET_DIR"] = self.dir + "-twin"
        r = call(self.args("build") + ["--features", "twin"], cwd=self.crate, env=env, timeout=600)
        return r.rc == 0


NARROW_FLAGS = "-Clinker-flavor=ld -Crelocation-model=static"


class Narrow(Config):
    """Programs of 32 bits, run natively: the standard library built from source, linked
    against the 32-bit C library of this machine with start code of our own."""

    def __init__(self, name, profile="chk", **kw):
        super().__init__(name, NIGHTLY, profile, NARROW_FLAGS, MIRI_TARGETS["i686"], build_std=True, **kw)
        self.extra["CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER"] = LD32

    def prepare(self):
        super().prepare()
        linker32()

    def build(self, bins):
        try:
            super().build(bins)
        except Inconclusive as e:
            if "the library does not compile" in str(e):
                wide = Config("chk")
                os.makedirs(wide.dir, exist_ok=True)
                if wide.library_builds():
                    raise Violation(f"the library compiles for 64-bit targets, but not for 32-bit ones ({self.name})",
                                    {"compiler": str(e)}, {"build": self.name})
            raise


class NarrowDerived(Derived):
    narrow = True

    def __init__(self, name, seed, count, profile="chk"):
        super().__init__(name, seed, count, toolchain=NIGHTLY, profile=profile, rustflags=NARROW_FLAGS,
                         target=MIRI_TARGETS["i686"], build_std=True)
        self.extra["CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER"] = LD32

    def prepare(self):
        super().prepare()
        linker32()


LD32 = os.path.join(CACHE, "ld32", "ld")


def linker32():
    d = os.path.dirname(LD32)
    if os.path.exists(LD32):
        return
    tmp = f"{d}.{os.getpid()}.{time.time_ns()}"
    os.makedirs(os.path.join(tmp, "lib"))
    crt = os.path.join(tmp, "crt1.o")
    r = call(["as", "--32", os.path.join(VERIF, "native32", "crt1.S"), "-o", crt])
    if r.rc != 0:
        raise Inconclusive(f"assembling for 32 bits: {r.how()}\n{r.err[-1000:]}")
    for lib in ("c", "gcc_s", "m", "dl", "rt", "util", "pthread"):
        found = sorted(glob.glob(f"/usr/lib32/lib{lib}.so.*"), key=len)
        if not found:
            raise Inconclusive(f"this machine has no 32-bit lib{lib}")
        os.symlink(found[0], os.path.join(tmp, "lib", f"lib{lib}.so"))
    ld = os.path.join(tmp, "ld")
    with open(ld, "w") as f:
        f.write(f"#!/bin/sh\nexec ld -m elf_i386 -dynamic-linker /lib/ld-linux.so.2 {d}/crt1.o -L{d}/lib \"$@\"\n")
    os.chmod(ld, 0o755)
    try:
        os.rename(tmp, d)
    except OSError:
        if not os.path.exists(LD32):
            raise
        shutil.rmtree(tmp)


class Result:
    def __init__(self, rc, out, err, timed_out, wall):
        self.rc, self.out, self.err = rc, out, err
        self.timed_out, self.wall = timed_out, wall

    def how(self):
        if self.timed_out:
            return f"no end after {self.wall:.0f} s"
        if self.rc < 0:
            return f"ended by signal {-self.rc}"
        return f"exit status {self.rc}"


def call(argv, cwd=None, env=None, timeout=600, cpu=None, stdin=None):
    def limits():
        os.setsid()
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 10))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    t = time.time()
    p = subprocess.Popen(argv, cwd=cwd, env=env or base_env(), stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=limits,
                         text=True, errors="replace")
    timed_out = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
    return Result(p.returncode, out, err, timed_out, time.time() - t)


CONFIGS = {
    # What a debug build of a program would run.
    "chk": Config("chk"),
    # Release semantics.
    "plain": Config("plain", profile="plain"),
    # Optimised.
    "release": Config("release", profile="release", features=""),
    "relchk": Config("relchk", profile="relchk", features=""),
    "asan": Config("asan", NIGHTLY, "chk", "-Zsanitizer=address -Cdebuginfo=line-tables-only", HOST),
    "asanplain": Config("asanplain", NIGHTLY, "plain", "-Zsanitizer=address -Cdebuginfo=line-tables-only", HOST),
    "tsan": Config("tsan", NIGHTLY, "chk", "-Zsanitizer=thread -Cdebuginfo=line-tables-only", HOST,
                   build_std=True, features=""),
}


for _i in range(6):
    CONFIGS[f"derived{_i}"] = Derived(f"derived{_i}", SEED + _i * 7919, 250 if _i == 0 else 700)
CONFIGS["m32"] = Narrow("m32")
CONFIGS["m32plain"] = Narrow("m32plain", "plain", features="")
CONFIGS["m32release"] = Narrow("m32release", "release", features="")
CONFIGS["derived32"] = NarrowDerived("derived32", SEED, 250)
CONFIGS["derivedplain"] = Derived("derivedplain", SEED, 250, profile="plain")


def miri_sysroot(which):
    return os.path.join(CACHE, "miri-" + which)


def miri_env(which, flags=""):
    env = base_env()
    env["RUSTUP_TOOLCHAIN"] = NIGHTLY
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
    env["MIRI_SYSROOT"] = miri_sysroot(which)
    env["MIRIFLAGS"] = flags
    return env


def miri_setup(which):
    d = miri_sysroot(which)
    if os.path.exists(os.path.join(d, ".done")):
        return
    os.makedirs(d, exist_ok=True)
    env = miri_env(which)
    r = call(["cargo", "miri", "setup", "--target", MIRI_TARGETS[which]], cwd=HARNESS, env=env, timeout=900)
    if r.rc != 0:
        raise Inconclusive(f"cargo miri setup for {which}: {r.how()}\n{r.err[-2000:]}")
    open(os.path.join(d, ".done"), "w").close()


SANITIZER = re.compile(
    r"ERROR: (Address|Leak)Sanitizer|WARNING: ThreadSanitizer|error: Undefined Behavior"
    r"|error: memory leaked|error: the evaluated program deadlocked|error: abnormal termination"
)
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}


class Run:
    """One execution of a monitored program."""

    def __init__(self, config, bin, args=(), env=None, miri=None, cpu=300, timeout=700,
                 flags="", label=None, profile=None):
        self.config, self.bin, self.args = config, bin, list(args)
        self.extra, self.miri, self.cpu, self.timeout = env or {}, miri, cpu, timeout
        self.flags, self.profile = flags, profile
        self.label = label or f"{bin} ({'miri ' + miri if miri else config}{' ' + ' '.join(args) if args else ''})"
        self.evidence = None
        self.output = ""

    def command(self, tier):
        args = ["--seed", str(SEED), "--tier", tier] + self.args
        if self.miri:
            feats = ["--no-default-features"] + (["--features", "cat"] if self.config == "cat" else [])
            a = ["cargo", "miri", "run", "--quiet", "--offline", "--target", MIRI_TARGETS[self.miri]]
            if self.profile:
                a += ["--profile", self.profile]
            return a + feats + ["--bin", self.bin, "--"] + args
        return [CONFIGS[self.config].binary(self.bin)] + args

    def build_key(self):
        return (self.miri, self.config, self.profile, self.bin)

    def compile(self):
        """Compiles a Miri program: runs no case."""
        r = call(self.command("quick") + ["--only", "none"], cwd=HARNESS,
                 env=miri_env(self.miri, self.flags), timeout=600)
        if r.rc != 0:
            raise Inconclusive(f"{self.label}: does not start under Miri: {r.how()}\n{r.err[-3000:]}")

    def execute(self, tier):
        argv = self.command(tier)
        if self.miri:
            env = miri_env(self.miri, self.flags)
            env.update(self.extra)
            r = call(argv, cwd=HARNESS, env=env, timeout=self.timeout)
        else:
            env = base_env()
            env.update(
                ASAN_OPTIONS="detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=43:allocator_may_return_null=1",
                TSAN_OPTIONS="halt_on_error=1:exitcode=43:second_deadlock_stack=1",
            )
            env.update(self.extra)
            r = call(argv, cwd=HARNESS, env=env, timeout=self.timeout, cpu=self.cpu)
        self.judge(r, argv)
        return r

    def judge(self, r, argv):
        self.output = r.out
        replay = {"command": " ".join(argv), "run": self.label, "seed": SEED, "status": r.how()}
        m = re.search(r"^VIOLATION-DETAIL (.*)$", r.out, re.M)
        if m:
            try:
                d = json.loads(m.group(1))
            except ValueError:
                d = {"message": m.group(1)}
            replay["case"] = d.get("case")
            raise Violation(f"{self.label}: {d.get('case')}: {d.get('message')}", d, replay)
        s = SANITIZER.search(r.err)
        if s:
            at = max(0, s.start() - 200)
            raise Violation(f"{self.label}: {first_line(r.err[s.start():])}", {"report": r.err[at:at + 8000]}, replay)
        if r.timed_out:
            raise Inconclusive(f"{self.label}: {r.how()}")
        if r.rc < 0:
            sig = -r.rc
            if sig == signal.SIGXCPU:
                raise Violation(
                    f"{self.label}: no end after {self.cpu} s of processor time, many times what it needs",
                    {"stderr": r.err[-4000:]}, replay)
            if sig in CRASH:
                raise Violation(f"{self.label}: crashed ({r.how()})", {"stderr": r.err[-6000:]}, replay)
            raise Inconclusive(f"{self.label}: {r.how()}\n{r.err[-2000:]}")
        if r.rc == 101 and not self.miri:
            raise Violation(f"{self.label}: panicked: {first_line(r.err)}", {"stderr": r.err[-6000:]}, replay)
        if r.rc != 0:
            raise Inconclusive(f"{self.label}: {r.how()}\n{r.err[-3000:]}")
        m = re.search(r"^EVIDENCE (.*)$", r.out, re.M)
        if not m:
            raise Inconclusive(f"{self.label}: printed no evidence\n{r.out[-1000:]}{r.err[-1000:]}")
        self.evidence = json.loads(m.group(1))
        e = self.evidence
        if e["evaluations"] + e["counters"].get("bulk_evaluations", 0) == 0 or e["events"] == 0:
            raise Inconclusive(f"{self.label}: observed nothing")


def first_line(s):
    for line in s.splitlines():
        if line.strip():
            return line.strip()[:400]
    return ""


def source_integers():
    """Integer literals of the sources under test, as a fuzzer's dictionary."""
    found = set()
    for root in ("ordinal-map/src", "ordinal-map-derive/src"):
        for f in glob.glob(os.path.join(REPO, root, "**", "*.rs"), recursive=True):
            try:
                text = open(f, errors="replace").read()
            except OSError:
                continue
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)", text):
                t = m.group(1).replace("_", "")
                try:
                    v = int(t, 0) if not re.fullmatch(r"0\d+", t) else int(t)
                except ValueError:
                    continue
                if 3 < v < 1 << 64:
                    found.add(v)
            # 1 << 20 and the like
            for m in re.finditer(r"(\d+)(?:_?[ui](?:8|16|32|64|size))?\s*<<\s*(\d+)", text):
                v = int(m.group(1)) << min(int(m.group(2)), 64)
                if 3 < v < 1 << 64:
                    found.add(v)
    return sorted(found)[:400]


def dict_args():
    v = source_integers()
    return ["--dict", ",".join(map(str, v))] if v else []


def natives(*pairs, **kw):
    return [Run(c, b, **kw) for c, b in pairs]


def prepare(runs):
    """Build everything the runs need, the configurations in parallel."""
    need = {}
    for r in runs:
        if not r.miri:
            need.setdefault(r.config, set()).add(r.bin)
    miris = {r.miri for r in runs if r.miri}
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(CONFIGS[c].build, sorted(b)) for c, b in need.items()]
        jobs += [ex.submit(miri_setup, m) for m in miris]
        wait_all(jobs)
    if miris:
        drop_fingerprints(os.path.join(TARGET, "miri"))


def wait_all(jobs):
    """The first violation wins over inconclusive answers."""
    errs = []
    for j in jobs:
        try:
            j.result()
        except Exception as e:  # noqa
            errs.append(e)
    for e in errs:
        if isinstance(e, Violation):
            raise e
    if errs:
        raise errs[0]


def run_all(runs, tier):
    prepare(runs)
    native = [r for r in runs if not r.miri]
    miri = [r for r in runs if r.miri]
    errs = []

    def serial(rs):
        for r in rs:
            try:
                r.execute(tier)
            except (Violation, Inconclusive) as e:
                errs.append(e)
                if isinstance(e, Violation):
                    return

    # Native runs use all cores each; Miri runs are single-threaded. The Miri programs
    # are compiled first, one after another: they share a target directory.
    def miri_part():
        builds = {}
        for r in miri:
            builds.setdefault(r.build_key(), r)
        for r in builds.values():
            try:
                r.compile()
            except Inconclusive as e:
                errs.append(e)
                return
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda r: serial([r]), miri))

    with cf.ThreadPoolExecutor(2) as ex:
        jobs = [ex.submit(serial, native), ex.submit(miri_part)]
        for j in jobs:
            j.result()
    for e in errs:
        if isinstance(e, Violation):
            raise e
    if errs:
        raise errs[0]


def merge(runs):
    """Evidence of all runs together. Distinct executions are counted per workload
    in its own process; the same workload in another configuration counts once."""
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "events_observed": 0, "counters": {}, "samples": [], "runs": []}
    best = {}
    for r in runs:
        e = r.evidence
        if not e:
            continue
        ev = e["evaluations"] + e["counters"].pop("bulk_evaluations", 0)
        di = e["distinct"] + e["counters"].pop("bulk_distinct", 0)
        cov["evaluations"] += ev
        cov["events_observed"] += e["events"]
        best[r.bin] = max(best.get(r.bin, 0), di)
        for k, v in e["counters"].items():
            cov["counters"][k] = cov["counters"].get(k, 0) + v
        for s in e["samples"]:
            if len(cov["samples"]) < 8:
                cov["samples"].append(s[:600])
        cov["runs"].append({"run": r.label, "evaluations": ev, "distinct": di, "events": e["events"]})
    cov["distinct_nontrivial"] = sum(best.values())
    return cov


# ---------------------------------------------------------------- properties

import probes  # noqa: E402
from checks import CHECKS, PROBES  # noqa: E402


def known_findings():
    """Lines 'known: property=ID match=TEXT'; 'fixed:' lines suppress nothing."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) match=(.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    except OSError:
        pass
    return out


def write_evidence(pid, tier, cov, violations):
    c = CHECKS[pid]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": SEED,
        "level": c["level"],
        "coverage": cov,
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - START, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        cov["counters"] = {}
        cov["samples"] = cov["samples"][:3]
        text = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        f.write(text + "\n")


def report(pid, tier, v):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{pid}-{int(time.time() * 1000) % 10**10}.json")
    how = dict(v.replay)
    if how.get("case"):
        how["reproduce"] = f"{how.get('command')} --only '{how['case']}'"
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "message": v.message, "replay": how, "detail": v.detail}, f, indent=1)
        f.write("\n")
    print(f"{v.message[:1500]}")
    for step in (v.detail.get("trace") or [])[-15:]:
        print("   ", str(step)[:300])
    for k in ("report", "compiler", "stderr"):
        if v.detail.get(k):
            print(v.detail[k][:3000])
    print(f"VIOLATION property={pid} replay={path}")


def check(pid, tier):
    c = CHECKS[pid]
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": c["rule"], "samples": []}
    try:
        runs = c["runs"](tier)
        run_all(runs, tier)
        m = merge(runs)
        probe = PROBES.get(pid)
        if probe:
            p = probe(tier, runs)
            m["evaluations"] += p.pop("evaluations", 0)
            m["distinct_nontrivial"] += p.pop("distinct_nontrivial", 0)
            m["samples"] = (p.pop("samples", []) + m["samples"])[:12]
            m["counters"].update(p.pop("counters", {}))
            m["runs"] += p.pop("runs", [])
            m.update(p)
        m["rule"] = c["rule"]
        cov = m
        if m["distinct_nontrivial"] < c.get("floor", 2):
            raise Inconclusive(f"only {m['distinct_nontrivial']} distinct executions observed")
    except Violation as v:
        for kp, text in known_findings():
            if kp == pid and text and text in v.message:
                print(f"KNOWN-FINDING: property={pid} {v.message[:300]}")
                write_evidence(pid, tier, cov, 0)
                return 0
        write_evidence(pid, tier, cov, 1)
        report(pid, tier, v)
        return 1
    except Inconclusive as e:
        write_evidence(pid, tier, cov, 0)
        print(f"INCONCLUSIVE property={pid}: {e}")
        return 2
    write_evidence(pid, tier, cov, 0)
    print(f"held: property={pid} tier={tier} evaluations={cov['evaluations']} "
          f"distinct={cov['distinct_nontrivial']} wall={time.time() - START:.1f}s")
    return 0


def setup():
    """Build every configuration once, so that checks only rebuild what changed."""
    runs = []
    for c in CHECKS.values():
        runs += c["runs"]("quick")
    need = {}
    for r in runs:
        if not r.miri:
            need.setdefault(r.config, set()).add(r.bin)
    ok = True
    for m in sorted({r.miri for r in runs if r.miri} | {"x86_64"}):
        try:
            miri_setup(m)
            print("miri sysroot", m, "ready")
        except Inconclusive as e:
            ok = False
            print(e)

    def configuration(item):
        c, bins = item
        t = time.time()
        try:
            CONFIGS[c].build(sorted(bins))
            print(f"built {c}: {', '.join(sorted(bins))} in {time.time() - t:.1f} s", flush=True)
        except (Violation, Inconclusive) as e:
            # The checks themselves will say what this means.
            print(f"{c}: {e}", flush=True)
            return not isinstance(e, Inconclusive)
        return True

    # Most of a build is one long compilation: several at once.
    with cf.ThreadPoolExecutor(3) as ex:
        ok = all(list(ex.map(configuration, need.items()))) and ok
    try:
        probes.labs()
        probes.narrow_lab()
        print("built the compile probes' libraries")
    except Inconclusive as e:
        ok = False
        print(e)
    for r in {r.build_key(): r for r in runs if r.miri}.values():
        t = time.time()
        try:
            r.compile()
            print(f"built {r.label} in {time.time() - t:.1f} s")
        except Inconclusive as e:
            print(e)
            ok = False
    return 0 if ok else 1


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        return setup()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(pid, tier)


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
