"""What each property's check runs. See DESIGN.md for why."""


def Run(*a, **k):
    import run
    return run.Run(*a, **k)


def natives(*pairs, **k):
    return [Run(c, b, **k) for c, b in pairs]


def dict_args():
    import run
    return run.dict_args()


def cpu(tier):
    return dict(cpu=300, timeout=700) if tier == "quick" else dict(cpu=20000, timeout=5400)


MODEL_RULE = (
    "Operation sequences generated from VERIF_SEED run on the real containers and on a reference model, "
    "results compared step by step; a case is non-trivial if it changed or observed at least one entry, "
    "distinct by a hash over everything observed."
)


def c01(tier):
    d = dict_args()
    return [
        Run("chk", "c01", d, **cpu(tier)),
        Run("release", "c01", d, **cpu(tier)),
        Run("relchk", "c01", ["--sweep"] + d, **cpu(tier)),
    ]


def c02(tier):
    d = dict_args()
    return [Run("chk", "c02", d, **cpu(tier)), Run("plain", "c02", d, **cpu(tier))]


def derived(tier, args):
    names = ["derived0"] if tier == "quick" else [f"derived{i}" for i in range(6)]
    return [Run(n, "derived", args, **cpu(tier)) for n in names]


def c03(tier):
    d = dict_args()
    return derived(tier, d) + [Run("derivedplain", "derived", d, **cpu(tier))]


def c04(tier):
    d = dict_args()
    return [
        Run("chk", "c04", d, **cpu(tier)),
        Run("relchk", "c04", ["--sweep"] + d, **cpu(tier)),
    ] + derived(tier, ["--order"] + d)


def both(name):
    return lambda tier: natives(("chk", name), ("plain", name), **cpu(tier))


def miri(config, bin, shards, tier, flags="", target="x86_64", profile=None, args=()):
    t = 420 if tier == "quick" else 6000
    return [
        Run(config, bin, list(args) + (["--shard", f"{i}/{shards}"] if shards > 1 else []), miri=target,
            flags="-Zmiri-disable-isolation " + flags, timeout=t, profile=profile,
            label=f"{bin} (miri {target}{' ' + profile if profile else ''}{' ' + flags if flags else ''}"
                  f"{' ' + ' '.join(args) if args else ''}{f' shard {i}' if shards > 1 else ''})")
        for i in range(shards)
    ]


NOLEAK = {"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=43:allocator_may_return_null=1"}


def c12(tier):
    runs = both("c12")(tier) + miri("", "c12", 8, tier)
    return runs


def c13(tier):
    runs = both("c13")(tier)
    if tier == "thorough":
        runs += miri("", "c13", 8, tier, "-Zmiri-ignore-leaks")
        runs += [Run("asan", "c13", env=NOLEAK, **cpu(tier)), Run("asanplain", "c13", env=NOLEAK, **cpu(tier))]
    return runs


def c14(tier):
    runs = [Run("asan", "c14", env=NOLEAK, **cpu(tier)), Run("asanplain", "c14", env=NOLEAK, **cpu(tier))]
    # Miri with the semantics of a release build: a debug assertion would turn the
    # undefined behaviour it guards into a panic.
    runs += miri("cat", "c14", 8, tier, "-Zmiri-ignore-leaks", profile="plain")
    if tier == "thorough":
        runs += miri("cat", "c14", 8, tier, "-Zmiri-ignore-leaks")
        runs += miri("cat", "c14", 8, tier, "-Zmiri-ignore-leaks -Zmiri-tree-borrows", profile="plain")
        runs += miri("cat", "c14", 8, tier, "-Zmiri-ignore-leaks -Zmiri-symbolic-alignment-check", profile="plain")
        runs += miri("cat", "c14", 8, tier, "-Zmiri-ignore-leaks", target="s390x", profile="plain")
    return runs


def weak(bin, tier, flags=""):
    """Miri with different schedules and weak-memory choices."""
    n = 8 if tier == "quick" else 64
    runs = []
    for i in range(n):
        args = ["--salt", f", schedule {i}"] if i else []
        rate = [0.1, 0.02, 0.3, 0.01][i % 4]
        f = f"-Zmiri-disable-isolation -Zmiri-seed={seed() * 1000 + i} -Zmiri-preemption-rate={rate} {flags}"
        runs.append(Run("", bin, args, miri="x86_64", flags=f, timeout=420 if tier == "quick" else 6000,
                        label=f"{bin} (miri x86_64, schedule seed {seed() * 1000 + i})"))
    return runs


def seed():
    import run
    return run.SEED


def c15(tier):
    return natives(("chk", "c15"), ("release", "c15"), **cpu(tier)) + weak(
        "c15", tier, "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation")


def c16(tier):
    return (natives(("chk", "c16"), ("release", "c16"), **cpu(tier)) + [Run("tsan", "c16", ["--short"], **cpu(tier))]
            + weak("c16", tier, "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation"))


# Programs that judge themselves, on 32 bits; some at part of their size, to save time.
NARROW = {"c01": 100, "c02": 100, "c04": 100, "c05": 60, "c06": 40, "c07": 60, "c08": 40, "c09": 60, "c10": 60, "c11": 60,
          "c12": 50, "c13": 20, "c15": 10, "c16": 30, "c19": 8}


def c21(tier):
    d = ["--digests"]
    # Compared with one another, group by group.
    runs = [Run(c, "c21", d, **cpu(tier)) for c in ("chk", "plain", "release", "relchk", "m32", "m32plain")]
    runs.append(Run("chk", "c21", d + ["--small"], **cpu(tier)))
    runs += miri("", "c21", 8, tier, target="s390x", args=d)
    words = dict_args()
    # Models of 64-bit builds, holding of 32-bit ones.
    for b, percent in NARROW.items():
        scale = [] if tier == "thorough" or percent == 100 else ["--scale", str(percent)]
        runs.append(Run("m32", b, scale + (words if b in ("c01", "c02", "c04") else []), **cpu(tier)))
    runs.append(Run("derived32", "derived", words, **cpu(tier)))
    if tier == "thorough":
        runs += [Run("m32release", "c21", d, **cpu(tier)), Run("derived32", "derived", words + ["--order"], **cpu(tier))]
        runs += miri("", "c21", 8, tier, target="i686", args=d)
        runs += miri("", "c15", 4, tier, target="s390x") + miri("", "c12", 4, tier, target="s390x")
    return runs


def c22(tier):
    runs = natives(("chk", "c22"), ("release", "c22"), **cpu(tier))
    scale = ["--scale", "60"] if tier == "quick" else ["--scale", "5"]
    runs.append(Run("tsan", "c22", scale, cpu=900 if tier == "quick" else 20000, timeout=700 if tier == "quick" else 5400))
    n = 8 if tier == "quick" else 64
    for i in range(n):
        rate = [0.05, 0.2, 0.01, 0.5][i // 4 % 4]
        runs.append(Run("", "c22", ["--shard", f"{i % 4}/4", "--salt", f", schedule {i // 4}"], miri="x86_64",
                        flags=f"-Zmiri-disable-isolation -Zmiri-seed={seed() * 1000 + i} -Zmiri-preemption-rate={rate}",
                        timeout=500 if tier == "quick" else 6000,
                        label=f"c22 (miri x86_64, schedule seed {seed() * 1000 + i}, shard {i % 4})"))
    return runs


NATIVE = (
    "Held on the executions listed in the evidence; nothing is claimed about inputs outside them. Trusts rustc, the "
    "standard library and the reference models in harness/src. ")

CHECKS = {
    "C01": dict(level="exploration", runs=c01, technique="round-trip monitor over exhaustive value sweeps", note=NATIVE, rule=(
        "Round trips value->ordinal->value and ordinal->value->ordinal, every value and ordinal for types of up to "
        "2^32 values, boundary, dictionary and random ones beyond; distinct: swept values plus random batches by "
        "hash of what they converted.")),
    "C02": dict(level="exploration", runs=c02, technique="reference-model monitor of composed mappings", note=NATIVE, rule=(
        "Composed types against a u128 reference mapping at every ordinal (small types), the first ordinals, "
        "boundaries and random ones; one case per type or random batch, distinct by the ordinals tried.")),
    "C03": dict(level="exploration", runs=c03, technique="model-based monitor of generated derive programs", note=(
        "A failure to compile counts as a violation only if the same definitions without the derive compile. " + NATIVE), rule=(
        "Type definitions (a fixed corpus of unusual shapes and names, and random ones from VERIF_SEED) that derive the mapping, "
        "each compared with its own u128 model at all or boundary and random ordinals; one case per instantiated type or random batch.")),
    "C04": dict(level="exploration", runs=c04, technique="order-agreement monitor over value pairs", note=NATIVE, rule=(
        "Pairs of values compared by Ord and by ordinal: all pairs of small types, all neighbours of types of up to "
        "2^32 values, boundary and random pairs beyond; distinct: neighbours swept plus batches by hash of the pairs.")),
    "C05": dict(level="exploration", runs=both("c05"), technique="model-based monitor of OrdinalValues histories", note=NATIVE, rule=MODEL_RULE),
    "C06": dict(level="exploration", runs=both("c06"), technique="model-based monitor of sparse map histories (dictionary oracle)", note=NATIVE, rule=MODEL_RULE),
    "C07": dict(level="exploration", runs=both("c07"), technique="model-based monitor of entry handles", note=NATIVE, rule=MODEL_RULE),
    "C08": dict(level="exploration", runs=both("c08"), technique="exactly-once and order monitor of map iterators", note=NATIVE, rule=MODEL_RULE),
    "C09": dict(level="exploration", runs=both("c09"), technique="model-based monitor of total map histories", note=NATIVE, rule=MODEL_RULE),
    "C10": dict(level="exploration", runs=both("c10"), technique="model-based monitor of set histories (mathematical set oracle)", note=NATIVE, rule=MODEL_RULE),
    "C11": dict(level="exploration", runs=both("c11"), technique="exactly-once and order monitor of set iterators", note=NATIVE, rule=MODEL_RULE),
    "C12": dict(level="exploration", runs=c12, technique="drop-event ledger with heap-balance and Miri leak monitors", note=NATIVE, rule=(
        "Operation histories over tracked keys and values: every construction, clone and drop is logged and must pair up "
        "exactly once; native cases run three times and must leave the heap as it was. Distinct by everything observed.")),
    "C13": dict(level="fault_enumeration", runs=c13, technique="panic injection at every user-code call with ledger and state oracles", note=(
        "Within each generated scenario every call into user code is made to panic once (evenly thinned above 80 points per kind "
        "of fault); scenarios themselves are sampled. " + NATIVE), rule=(
        "Scenarios of one operation after a random prior state; one evaluation per injected panic, whose aftermath (ledger, "
        "surviving entries, usability) is judged; a case is one scenario with all its injections.")),
    "C14": dict(level="exploration", runs=c14, technique="Miri and AddressSanitizer over hostile workloads", note=(
        "Undefined behaviour is what Miri (stacked borrows, release semantics) or AddressSanitizer report on these executions. " + NATIVE), rule=(
        "Executions of hostile workloads (lawless keys, odd value types, forgotten iterators, injected panics, threads, "
        "ordinary histories) under AddressSanitizer and Miri; distinct by everything observed.")),
    "C15": dict(level="exploration", runs=c15, technique="linearizability checker over recorded concurrent histories", note=(
        "Interleavings are those that occurred on 8 cores and under Miri's randomised scheduler and weak-memory emulation. " + NATIVE), rule=(
        "Recorded histories of calls and returns searched for a legal sequential order, counting monitors over exchange loops, "
        "and single-threaded histories against a register; distinct by the order of starts and ends and all values seen, "
        "concurrent ones only if calls overlapped.")),
    "C16": dict(level="exploration", runs=c16, technique="litmus programs under Miri and ThreadSanitizer race detection", note=(
        "Races are decided by the detectors' happens-before relations; forbidden outcomes only as far as Miri's weak-memory "
        "emulation or the x86 host produce them. " + NATIVE), rule=(
        "Litmus executions (message passing over all pairs of releasing and acquiring operations, relays, locks, store buffering, "
        "independent reads); distinct by orderings, delays and outcomes.")),
    "C17": dict(level="exploration", runs=both("c17"), technique="counting-allocator monitor of every operation", note=(
        "Built without optimisation, so that no allocation is optimised away. " + NATIVE), rule=(
        "Random histories in which the allocations of every single library operation are counted and judged; a case is one "
        "history, distinct by operations, keys, outcomes.")),
    "C18": dict(level="exploration", runs=lambda tier: natives(("chk", "c18"), ("release", "c18"), **cpu(tier)),
                technique="instruction-count monitor (single-stepping) and key-conversion counter", note=(
        "Work is instructions executed in user space; growth is judged between containers of up to three keys and ones of up to "
        "300000. " + NATIVE), rule=(
        "Histories on large containers of every fill in which each measured operation is single-stepped and its instructions and "
        "key conversions compared with the most it took on containers of one to three keys; distinct by the counts seen.")),
    "C19": dict(level="exploration", runs=both("c19"), technique="model-based monitor of clone families; Debug text compared with std", note=NATIVE, rule=(
        "Histories over families of live clones (containers and iterators), each member judged against its own model after every "
        "step, and every text compared with that of the standard collection; distinct by contents, steps and texts.")),
    "C20": dict(level="exploration", runs=lambda tier: [], technique="monitor of the compiler's verdicts on generated programs, and of those that run", note=(
        "A rejection counts only because the same program with the right size or type compiles and runs. " + NATIVE), rule=(
        "Programs compiled against debug and release builds of the library: with right and wrong size parameters for every "
        "constructor, types at and over the largest size (fixed and random), and types without a mapping; distinct programs.")),
    "C21": dict(level="exploration", runs=c21, technique="result digests compared across builds and targets; self-judging programs on 32 bits and big-endian", note=(
        "Targets are x86_64, i686 (native) and s390x (Miri, smaller workloads); builds with and without optimisation, overflow "
        "checks and debug assertions. " + NATIVE), rule=(
        "Groups of generated operations whose results are judged by a model and hashed, the hashes compared between "
        "configurations; histories of the other properties rerun on 32 bits; programs compiled for 32 bits. Distinct as the "
        "workloads count them, the same workload in another configuration counting once.")),
    "C22": dict(level="exploration", runs=c22, technique="race detection (ThreadSanitizer, Miri) over shared, moved and split containers; compiler-verdict monitor", note=(
        "That types are thread-safe for all keys and values is the compiler's verdict on generic programs; races and results are "
        "those of the executions. " + NATIVE), rule=(
        "Readings by several threads compared with the same readings alone, containers and iterators handed between threads "
        "against models, disjoint mutable views written at the same time, first uses of types by several threads; readings "
        "count as non-trivial only if they overlapped; distinct by contents, results and order of starts. Programs distinct by text.")),
}


def c20_probe(tier, runs):
    import probes
    return probes.c20(tier, runs)


def c21_probe(tier, runs):
    """Compares what the configurations observed, then asks the compiler."""
    import probes
    import run
    compared = {}
    for small in (False, True):
        first = {}
        for r in runs:
            if r.bin != "c21" or (r.miri is not None or "--small" in r.args) != small:
                continue
            for group, digest in r.evidence["digests"].items():
                if group not in first:
                    first[group] = (digest, r)
                    continue
                if first[group][0] != digest:
                    raise run.Violation(
                        f"{group}: other results in {r.label} than in {first[group][1].label}",
                        {"digests": [first[group][0], digest]},
                        {"command": " ".join(r.command(tier) + ["--only", group]), "other": " ".join(first[group][1].command(tier))})
                k = f"groups equal between {first[group][1].label} and {r.label}".split(" shard")[0]
                compared[k] = compared.get(k, 0) + 1
    for r in runs:
        if r.bin == "c21" and not r.miri and len(r.evidence["digests"]) < 200:
            raise run.Inconclusive(f"{r.label}: only {len(r.evidence['digests'])} groups")
    if any("Miri" in k or "miri" in k for k in compared) is False:
        raise run.Inconclusive("nothing was compared with the big-endian target")
    p = probes.c21(tier)
    p["counters"].update(compared)
    return p


def c22_probe(tier, runs):
    import probes
    return probes.c22(tier)


PROBES = {"C20": c20_probe, "C21": c21_probe, "C22": c22_probe}
