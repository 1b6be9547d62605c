"""Monitors of the compiler's verdict on small programs, and of what those that compile do."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil


def core():
    import run
    return run


LIMIT = (1 << 64) - 1


# ---------------------------------------------------------------- types with a known mapping

class T:
    """A Rust type with a mapping: its text, its size, and the value of an ordinal.

    `wide` is the most values any part of it has, a product counted without its empty
    factors: a type that fits only because something too large is multiplied by none is
    in neither class of programs.
    """

    def __init__(self, text, size, at, decl="", wide=0):
        self.text, self.size, self.at, self.decl = text, size, at, decl
        self.wide = max(size, wide)

    def __repr__(self):
        return f"{self.text} of {self.size} values"


def uint(bits):
    return T(f"u{bits}", 1 << bits, lambda k: f"{k}u{bits}")


def sint(bits):
    return T(f"i{bits}", 1 << bits, lambda k: f"({k - (1 << bits - 1)}i{bits})")


def nzu(bits, name=None):
    n = f"std::num::NonZeroU{name or bits}"
    return T(n, (1 << bits) - 1, lambda k: f"{n}::new({k + 1}).unwrap()")


def nzi(bits, name=None):
    n = f"std::num::NonZeroI{name or bits}"

    def at(k):
        v = k - (1 << bits - 1)
        return f"{n}::new({v + 1 if v >= 0 else v}).unwrap()"
    return T(n, (1 << bits) - 1, at)


def char_at(k):
    return f"char::from_u32({k if k < 0xD800 else k + 0x800}).unwrap()"


BOOL = T("bool", 2, lambda k: "true" if k else "false")
UNIT = T("()", 1, lambda k: "()")
NEVER = T("std::convert::Infallible", 0, None)
ORDERING = T("std::cmp::Ordering", 3, lambda k: "std::cmp::Ordering::" + ["Less", "Equal", "Greater"][k])
CHAR = T("char", 0x110000 - 0x800, char_at)
COLOR = T("super::Color", 3, lambda k: "super::Color::" + ["Red", "Green", "Blue"][k])
SMALL = [BOOL, UNIT, NEVER, ORDERING, uint(8), sint(8), nzu(8), nzi(8), COLOR]
BIG = [uint(16), sint(16), uint(32), sint(32), CHAR, nzu(16), nzi(16), nzu(32), nzi(32)]
HUGE = [nzu(64), nzi(64), nzu(64, "size"), nzi(64, "size")]


def option(a):
    return T(f"Option<{a.text}>", a.size + 1, lambda k: "None" if k == 0 else f"Some({a.at(k - 1)})", a.decl, a.wide)


def either(a, b, name="either::Either", l="either::Left", r="either::Right"):
    return T(f"{name}<{a.text}, {b.text}>", a.size + b.size,
             lambda k: f"{l}({a.at(k)})" if k < a.size else f"{r}({b.at(k - a.size)})", a.decl + b.decl,
             max(a.wide, b.wide))


def result(a, b):
    return either(a, b, "Result", "Ok", "Err")


def boxed(a):
    return T(f"Box<{a.text}>", a.size, lambda k: f"Box::new({a.at(k)})", a.decl, a.wide)


def product(parts):
    n = 1
    for p in parts:
        n *= p.size
    return n


def widest(parts):
    n = 1
    for p in parts:
        n *= max(p.size, 1)
    return max([n] + [p.wide for p in parts])


def split(parts, k):
    out = []
    for p in reversed(parts):
        k, r = divmod(k, p.size)
        out.append(p.at(r))
    return out[::-1]


def tup(parts):
    comma = "," if len(parts) == 1 else ""
    return T("(" + ", ".join(p.text for p in parts) + comma + ")", product(parts),
             lambda k: "(" + ", ".join(split(parts, k)) + comma + ")", "".join(p.decl for p in parts), widest(parts))


def array(a, n):
    return T(f"[{a.text}; {n}]", a.size ** n, lambda k: "[" + ", ".join(split([a] * n, k)) + "]", a.decl, widest([a] * n))


COUNT = [0]


def fresh():
    COUNT[0] += 1
    return f"D{COUNT[0]}"


DERIVES = "#[derive(ordinal_map::Ordinal, Clone, Debug, PartialEq)]\n"


def record(parts, generic=False):
    name = fresh()
    decl = "".join(p.decl for p in parts)
    if generic and parts:
        decl += f"{DERIVES}pub struct {name}<A: ordinal_map::Ordinal> {{ f0: A, " + ", ".join(
            f"f{i}: {p.text}" for i, p in enumerate(parts) if i) + " }\n"
        text = f"{name}::<{parts[0].text}>"
    else:
        decl += f"{DERIVES}pub struct {name} {{ " + ", ".join(f"f{i}: {p.text}" for i, p in enumerate(parts)) + " }\n"
        text = name
    return T(text, product(parts),
             lambda k: f"{name} {{ " + ", ".join(f"f{i}: {e}" for i, e in enumerate(split(parts, k))) + " }", decl, widest(parts))


def variants(vs):
    """An enum with a tuple of field types per variant."""
    name = fresh()
    body = ", ".join(f"V{i}" + ("(" + ", ".join(p.text for p in v) + ")" if v else "") for i, v in enumerate(vs))
    decl = "".join(p.decl for v in vs for p in v) + f"{DERIVES}pub enum {name} {{ {body} }}\n"

    def at(k):
        for i, v in enumerate(vs):
            n = product(v)
            if k < n:
                return f"{name}::V{i}" + ("(" + ", ".join(split(v, k)) + ")" if v else "")
            k -= n
    return T(name, sum(product(v) for v in vs), at, decl, max([0] + [widest(v) for v in vs]))


def random_type(r, depth, pools=(SMALL, BIG, BIG, HUGE)):
    if depth == 0:
        return r.choice(r.choice(pools))
    sub = lambda: random_type(r, r.randrange(depth), pools)  # noqa: E731
    w = r.randrange(8)
    if w == 0:
        return option(sub())
    if w == 1:
        return result(sub(), sub())
    if w == 2:
        return either(sub(), sub())
    if w == 3:
        return tup([sub() for _ in range(r.randrange(1, 5))])
    if w == 4:
        return array(sub(), r.randrange(1, 5))
    if w == 5:
        return boxed(sub())
    if w == 6:
        return record([sub() for _ in range(r.randrange(1, 4))], r.random() < 0.3)
    return variants([[sub() for _ in range(r.randrange(3))] for _ in range(r.randrange(1, 4))])


def boundary_types():
    """Types at and just over the largest size there can be."""
    half = array(BOOL, 63)                                  # 2^63
    full = lambda: tup([nzu(32), option(uint(32))])         # noqa: E731  2^64 - 1
    almost = lambda: tup([nzu(32), nzu(32)])                # noqa: E731
    fit = [
        half, full(), nzu(64), nzi(64, "size"), option(almost()), boxed(full()), tup([full()]), array(full(), 1),
        record([full()]), variants([[full()]]), variants([[nzu(32), option(uint(32))]]),
        result(half, tup([array(BOOL, 62), UNIT])), variants([[array(BOOL, 62)], [], [array(BOOL, 62)]]),
        tup([full(), UNIT]), array(UNIT, 9), tup([uint(32), uint(16), uint(8), BOOL]), array(nzu(32), 2), array(uint(16), 3),
        result(nzu(64), NEVER), either(NEVER, nzu(64)),
    ]
    over = [
        array(BOOL, 64), tup([half, BOOL]), tup([BOOL, half]), result(half, half), either(half, half), option(nzu(64)),
        option(nzu(64, "size")), option(full()), result(nzu(64), UNIT), result(UNIT, nzu(64)), either(nzi(64), BOOL),
        either(COLOR, nzi(64)), tup([uint(32), uint(32)]), tup([uint(32), sint(32), UNIT]), array(uint(32), 2),
        array(uint(16), 4), array(uint(8), 8), array(uint(8), 30), array(CHAR, 4), record([uint(32), uint(32)]),
        record([half, BOOL], True), record([uint(16), uint(32), uint(16), BOOL]), variants([[nzu(64)], []]), variants([[], [nzu(64)]]),
        variants([[half], [half]]), variants([[uint(32), uint(32)]]), variants([[uint(32), uint(32)], [BOOL]]),
        variants([[], [], [nzu(64)], []]), option(option(nzi(64))), option(array(BOOL, 64)), boxed(array(BOOL, 64)),
        result(nzu(64), nzu(64)), tup([nzu(64), nzu(64)]), array(nzu(64), 2), record([nzu(64), BOOL]),
        tup([uint(8)] * 8), tup([uint(8)] * 16), tup([BOOL, BOOL, nzu(64)]), variants([[half], [array(BOOL, 62)], [array(BOOL, 62)]]),
        array(COLOR, 41), array(option(BOOL), 41), boxed(result(half, half)), option(result(half, half)),
        tup([array(BOOL, 64)]), record([array(BOOL, 64)]), variants([[array(BOOL, 64)]]), array(array(BOOL, 64), 1),
        array(array(BOOL, 8), 8), result(array(BOOL, 64), UNIT), either(BOOL, tup([uint(32), uint(32)])),
    ]
    for t in fit:
        assert t.wide <= LIMIT, t
    for t in over:
        assert t.size > LIMIT, t
    return fit, over


LIMIT32 = (1 << 32) - 1
POOLS32 = (SMALL, [uint(16), sint(16), CHAR, nzu(16), nzi(16)], [uint(16), CHAR, nzu(16)],
           [nzu(32), nzi(32), nzu(32, "size"), nzi(32, "size")])


def boundary_types32():
    """The same with a usize of 32 bits. Types too large: those that fit 64 bits, and others."""
    half = array(BOOL, 31)                                  # 2^31
    full = lambda: tup([nzu(16), option(uint(16))])         # noqa: E731  2^32 - 1
    almost = lambda: tup([nzu(16), nzu(16)])                # noqa: E731
    fit = [
        half, full(), nzu(32), nzi(32), nzu(32, "size"), nzi(32, "size"), CHAR, uint(16), sint(16), option(almost()), boxed(full()),
        tup([full()]), array(full(), 1), record([full()]), variants([[full()]]), variants([[nzu(16), option(uint(16))]]),
        result(half, tup([array(BOOL, 30), UNIT])), variants([[array(BOOL, 30)], [], [array(BOOL, 30)]]),
        tup([full(), UNIT]), tup([uint(16), uint(8), BOOL]), array(nzu(16), 2), tup([CHAR, sint(8)]), array(uint(8), 3),
        result(nzu(32), NEVER), either(NEVER, nzi(32)),
    ]
    over = [
        uint(32), sint(32), nzu(64), nzi(64), boxed(uint(32)), tup([uint(32)]), array(sint(32), 1), record([uint(32)]),
        variants([[sint(32)]]), option(uint(32)), result(NEVER, uint(32)), tup([uint(32), BOOL]), option(nzu(64)),
        array(BOOL, 32), tup([half, BOOL]), tup([BOOL, half]), result(half, half), either(half, half), option(nzu(32)),
        option(nzu(32, "size")), option(full()), result(nzu(32), UNIT), result(UNIT, nzi(32)), either(nzi(32, "size"), BOOL),
        tup([uint(16), uint(16)]), tup([CHAR, uint(16)]), array(uint(16), 2), array(uint(8), 4), array(CHAR, 2),
        record([uint(16), sint(16)]), record([half, BOOL], True), variants([[nzu(32)], []]), variants([[], [nzu(32)]]),
        variants([[half], [half]]), variants([[uint(16), uint(16)]]), array(array(BOOL, 8), 4), array(BOOL, 64),
        tup([nzu(32), nzu(32)]), tup([nzu(32), option(nzu(32))]), array(nzu(32), 2), array(COLOR, 21), tup([uint(8)] * 4),
        result(array(BOOL, 32), UNIT), option(option(nzi(32))),
    ]
    for t in fit:
        assert t.wide <= LIMIT32, t
    for t in over:
        assert t.wide > LIMIT32 and t.size, t
    return fit, over


# ---------------------------------------------------------------- the compiler

PRELUDE = """#![allow(unused, deprecated, clippy::all)]
use ordinal_map::Ordinal;
#[derive(ordinal_map::Ordinal, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Color { Red, Green, Blue }
/// A hand-written key with any number of values.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Key<const N: usize>(pub usize);
impl<const N: usize> Ordinal for Key<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize { self.0 }
    fn from_ordinal(o: usize) -> Option<Self> { if o < N { Some(Key(o)) } else { None } }
}
"""
USES = """use std::hint::black_box;
use ordinal_map::*;
use ordinal_map::map::*;
use ordinal_map::map::total::*;
use ordinal_map::set::*;
"""


class Lab:
    """The library built one way, and programs compiled against it."""

    def __init__(self, name, profile, flags, narrow=False):
        run = core()
        self.name, self.flags, self.narrow = name, flags, narrow
        self.config = run.Narrow("probe-" + name, profile) if narrow else run.Config("probe-" + name, profile=profile, features="")
        self.dir = os.path.join(run.TARGET, "probes", name)
        self.lib = self.either = self.deps = None

    def build(self):
        run = core()
        c = self.config
        os.makedirs(c.dir, exist_ok=True)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        run.drop_fingerprints(c.dir)
        c.prepare()
        argv = ["cargo", "build", "--offline", "--profile", c.profile, "-p", "ordinal-map", "-p", "either",
                "--message-format", "json"]
        if self.narrow:
            argv += ["--target", c.target, "-Zbuild-std"]
        r = run.call(argv, cwd=run.HARNESS, env=c.env(), timeout=900)
        if r.rc != 0:
            raise run.Inconclusive(f"the library does not compile ({self.name}): {r.how()}\n{r.err[-3000:]}")
        for line in r.out.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-artifact":
                continue
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    if m["target"]["name"] == "ordinal_map":
                        self.lib = f
                    if m["target"]["name"] == "either":
                        self.either = f
        if not self.lib or not self.either:
            raise run.Inconclusive(f"no library came out of the build ({self.name})")
        self.deps = os.path.join(c.dir, c.target or "", c.profile, "deps")
        if self.narrow:
            # The standard library just built, laid out as rustc looks for it.
            at = os.path.join(self.dir, "sysroot", "lib", "rustlib", c.target, "lib")
            os.makedirs(at)
            for f in self.rlibs(os.path.join(c.dir, c.target, c.profile)):
                if not os.path.basename(f).startswith(("libordinal_map", "libeither", "libharness")):
                    for g in (f, f[:-5] + ".rmeta"):
                        os.symlink(g, os.path.join(at, os.path.basename(g)))
            # Macros are programs of the host.
            for f in glob.glob(os.path.join(c.dir, c.profile, "**", "libordinal_map_derive*.so"), recursive=True):
                self.flags = self.flags + ["-L", "dependency=" + os.path.dirname(f)]
            self.flags = self.flags + ["-L", "dependency=" + os.path.dirname(self.either)]
            for name, lib in (("ordinal_map", self.lib), ("either", self.either)):
                self.flags = self.flags + ["--extern", f"{name}={lib[:-5]}.rmeta"]
            self.flags = self.flags + ["--target", c.target, "--sysroot", os.path.join(self.dir, "sysroot"),
                                       "-C", "linker=" + run.LD32, *c.rustflags.split()]
        # The tools work: a program without the library compiles and runs.
        said = self.compile("control", "fn main() { println!(\"all done\") }\n", link=True)
        if said is not None:
            raise run.Inconclusive(f"a program without the library does not compile ({self.name}):\n{said[:2000]}")
        r = self.run("control")
        if r.rc != 0:
            raise run.Inconclusive(f"a program without the library does not run ({self.name}): {r.how()}\n{r.err[:2000]}")

    @staticmethod
    def rlibs(at):
        """The newest build of each library."""
        found = {}
        for f in glob.glob(os.path.join(at, "**", "*.rlib"), recursive=True):
            k = os.path.basename(f).rsplit("-", 1)[0]
            if k not in found or os.path.getmtime(f) > os.path.getmtime(found[k]):
                found[k] = f
        return found.values()

    def compile(self, name, source, link):
        """None if it compiled, else what the compiler said."""
        run = core()
        path = os.path.join(self.dir, name + ".rs")
        with open(path, "w") as f:
            f.write(source)
        out = os.path.join(self.dir, name)
        argv = ["rustc", "--edition", "2021", "--crate-type", "bin", "-C", "debuginfo=0", "-A", "warnings",
                "--extern", "ordinal_map=" + self.lib, "--extern", "either=" + self.either, "-L", "dependency=" + self.deps,
                *self.flags, "-o", out if link else out + ".o", path]
        if not link:
            argv += ["--emit", "obj"]
        env = run.base_env()
        env["RUSTUP_TOOLCHAIN"] = self.config.toolchain
        r = run.call(argv, cwd=self.dir, env=env, timeout=300)
        if not link:
            try:
                os.unlink(out + ".o")
            except OSError:
                pass
        if r.rc == 0:
            return None
        if r.rc != 1:
            raise run.Inconclusive(f"rustc on {name} ({self.name}): {r.how()}\n{r.err[-2000:]}")
        return r.err or "?"

    def run(self, name):
        run = core()
        return run.call([os.path.join(self.dir, name)], cwd=self.dir, env=run.base_env(), timeout=60, cpu=50)


LABS = [("debug", "chk", ["-C", "debug-assertions=on", "-C", "overflow-checks=on"]),
        ("release", "release", ["-C", "opt-level=1", "-C", "debug-assertions=off", "-C", "overflow-checks=off"])]


NARROW_LAB = ("m32", "chk", LABS[0][2], True)


def narrow_lab():
    Lab(*NARROW_LAB).build()


def labs():
    ls = [Lab(*x) for x in LABS]
    for lab in ls:
        lab.build()
    return ls


class Probe:
    """A program in a module of its own: `body` defines `pub fn main()`."""

    def __init__(self, what, body, decl=""):
        self.what, self.body, self.decl = what, body, decl

    def module(self, name):
        return f"mod {name} {{\n{USES}{self.decl}{self.body}\n}}\n"

    def source(self):
        return PRELUDE + self.module("probe") + "fn main() { probe::main() }\n"


def parallel(f, xs):
    run = core()
    with cf.ThreadPoolExecutor(8) as ex:
        jobs = [ex.submit(f, x) for x in xs]
        run.wait_all(jobs)
    return [j.result() for j in jobs]


def must_fail(ls, probes):
    run = core()

    def one(x):
        i, p, lab = x
        said = lab.compile(f"bad{i}", p.source(), link=False)
        if said is None:
            raise run.Violation(f"{p.what} compiles ({lab.name})", {"source": p.source()},
                                {"source": p.source(), "build": lab.name})
        return said

    return parallel(one, [(i, p, lab) for lab in ls for i, p in enumerate(probes)])


def must_run(ls, probes, name="good"):
    """All of them in one program, which must compile and end well."""
    run = core()

    def one(lab):
        src = PRELUDE + "".join(p.module(f"p{i}") for i, p in enumerate(probes)) + "fn main() {\n" + "".join(
            f"    p{i}::main();\n" for i in range(len(probes))) + f"    println!(\"all done\");\n}}\n"
        said = lab.compile(name, src, link=True)
        if said is not None:
            # Which one is it?
            for i, p in enumerate(probes):
                said1 = lab.compile(f"{name}-alone", p.source(), link=False)
                if said1 is not None:
                    raise run.Violation(f"{p.what} does not compile ({lab.name}): {run.first_line(said1)}",
                                        {"compiler": said1[:4000], "source": p.source()},
                                        {"source": p.source(), "build": lab.name})
            raise run.Inconclusive(f"programs that compile one by one do not together ({lab.name}):\n{said[:3000]}")
        r = lab.run(name)
        if r.rc != 0 or "all done" not in r.out:
            if r.timed_out:
                raise run.Inconclusive(f"{name} ({lab.name}): {r.how()}")
            for i, p in enumerate(probes):
                if lab.compile(f"{name}-alone", p.source(), link=True) is None:
                    r1 = lab.run(f"{name}-alone")
                    if r1.rc != 0:
                        raise run.Violation(f"{p.what} fails when run ({lab.name}): {run.first_line(r1.err)}",
                                            {"stderr": r1.err[:4000], "source": p.source()},
                                            {"source": p.source(), "build": lab.name})
            raise run.Violation(f"{name} fails when run ({lab.name}): {run.first_line(r.err)}", {"stderr": r.err[:4000]},
                                {"source": src, "build": lab.name})
        return len(probes)

    return parallel(one, ls)


# ---------------------------------------------------------------- C20

def key_types():
    """Types of few values, for the size parameters."""
    k = [BOOL, COLOR, option(BOOL), UNIT, NEVER, uint(8), array(BOOL, 3), tup([BOOL, COLOR]), nzi(8),
         result(BOOL, COLOR), boxed(BOOL)]
    for n in (0, 1, 5, 63, 64, 65, 128, 129):
        k.append(T(f"super::Key<{n}>", n, lambda i: f"super::Key({i})"))
    return k


def map_builders(t, s, v="u8"):
    m, a = f"OrdinalArrayMap<{t}, {v}, {s}>", f"OrdinalTotalArrayMap<{t}, {v}, {s}>"
    return [
        (f"{m}::new()", f"let m: {m} = OrdinalArrayMap::new(); black_box(&m);"),
        (f"{m}::default()", f"let m: {m} = Default::default(); black_box(&m);"),
        (f"collecting into {m}", f"let m: {m} = std::iter::empty().collect(); black_box(&m);"),
        (f"{m} in a generic function",
         f"fn make<K: Ordinal, const S: usize>() -> OrdinalArrayMap<K, {v}, S> {{ OrdinalArrayMap::new() }}\n"
         f"let m = make::<{t}, {{ {s} }}>(); black_box(&m);"),
        (f"{m} as a derived default",
         f"#[derive(Default)] struct W {{ m: {m} }}\nlet w = W::default(); black_box(&w.m);"),
        (f"{m} in a box", f"let m = Box::<{m}>::default(); black_box(&m);"),
        (f"{a}::new()", f"let m: {a} = OrdinalTotalArrayMap::new(|_| Default::default()); black_box(&m);"),
        (f"{a}::try_new()",
         f"let m: Result<{a}, u8> = OrdinalTotalArrayMap::try_new(|_| Ok(Default::default())); black_box(m.is_ok());"),
        (f"{a}::from_array()",
         f"let m: {a} = OrdinalTotalArrayMap::from_array(std::array::from_fn(|_| Default::default())); black_box(&m);"),
        (f"{a}::default()", f"let m: {a} = Default::default(); black_box(&m);"),
        (f"{a} in a generic function",
         f"fn make<K: Ordinal, const S: usize>(a: [{v}; S]) -> OrdinalTotalArrayMap<K, {v}, S> {{ OrdinalTotalArrayMap::from_array(a) }}\n"
         f"let m = make::<{t}, {{ {s} }}>(std::array::from_fn(|_| Default::default())); black_box(&m);"),
    ]


def set_builders(t, s):
    m = f"OrdinalArraySet<{t}, {s}>"
    return [
        (f"{m}::new()", f"let m: {m} = OrdinalArraySet::new(); black_box(&m);"),
        (f"{m}::default()", f"let m: {m} = Default::default(); black_box(&m);"),
        (f"collecting into {m}", f"let m: {m} = std::iter::empty().collect(); black_box(&m);"),
        (f"{m} in a generic function",
         f"fn make<K: Ordinal, const S: usize>() -> OrdinalArraySet<K, S> {{ OrdinalArraySet::default() }}\n"
         f"let m = make::<{t}, {{ {s} }}>(); black_box(&m);"),
    ]


def word_builders(t):
    m = f"OrdinalSet64<{t}>"
    return [
        (f"{m}::new()", f"let m: {m} = OrdinalSet64::new(); black_box(&m);"),
        (f"a constant {m}", f"const M: {m} = OrdinalSet64::new(); black_box(&M);"),
        (f"a static {m}", f"static M: {m} = OrdinalSet64::new(); black_box(&M);"),
        (f"{m}::default()", f"let m: {m} = Default::default(); black_box(&m);"),
        (f"{m}::all()", f"let m: {m} = OrdinalSet64::all(); black_box(&m);"),
        (f"collecting into {m}", f"let m: {m} = std::iter::empty().collect(); black_box(&m);"),
        (f"{m} in a generic function",
         f"fn make<K: Ordinal>() -> OrdinalSet64<K> {{ OrdinalSet64::all() }}\nlet m = make::<{t}>(); black_box(&m);"),
    ]


def program(name_body, decl=""):
    name, body = name_body
    return Probe(name, "pub fn main() {\n" + body + "\n}", decl)


def wrong_sizes(n, r, tier):
    s = {n + 1, n - 1, 0, 2 * n, n + 64, 1, 64, n.bit_length()} - {n, -1}
    s = sorted(s)
    return s if tier == "thorough" else r.sample(s, 2) if len(s) > 2 else s


def size_probes(r, tier):
    good, bad = [], []
    for t in key_types():
        words = -(-t.size // 64)
        values = ["u8", "()", "String", "[bool; 3]"] if tier == "thorough" else [r.choice(["u8", "()", "String"])]
        for v in values:
            good += [program(p) for p in map_builders(t.text, t.size, v)]
            good += [program(p) for p in map_builders(t.text, f"{{ <{t.text} as Ordinal>::ORDINAL_SIZE }}", v)]
            for s in wrong_sizes(t.size, r, tier):
                ps = map_builders(t.text, s, v)
                bad += [program(p) for p in (ps if tier == "thorough" else r.sample(ps, 4))]
        good += [program(p) for p in set_builders(t.text, words)]
        good += [program(p) for p in set_builders(t.text, f"{{ ordinal_array_set_s::<{t.text}>() }}")]
        for s in {words + 1, words - 1, t.size, 0, 64 * words} - {words, -1}:
            ps = set_builders(t.text, s)
            bad += [program(p) for p in (ps if tier == "thorough" else r.sample(ps, 2))]
        (good if t.size <= 64 else bad).extend(program(p) for p in word_builders(t.text))
    # One more and one less for every constructor, whatever the seed.
    for s in (2, 4):
        bad += [program(p) for p in map_builders("super::Color", s)]
    for s in (0, 2):
        bad += [program(p) for p in set_builders("super::Color", s)]
    for t in (option(array(BOOL, 6)), CHAR, uint(32), nzu(64)):
        bad += [program(p) for p in word_builders(t.text)]
    return good, bad


def size_uses(t):
    """Programs that need the size of a type."""
    n = f"<{t.text} as Ordinal>::ORDINAL_SIZE"
    return [
        program((f"ORDINAL_SIZE of {t!r}", f"assert_eq!(black_box({n}) as u128, {t.size}u128);"), t.decl),
        program((f"ORDINAL_SIZE of {t!r} in a constant", f"const N: usize = {n};\nassert_eq!(black_box(N) as u128, {t.size}u128);"), t.decl),
        program((f"ORDINAL_SIZE of {t!r} in a generic function",
                 f"fn size<K: Ordinal>() -> usize {{ K::ORDINAL_SIZE }}\nassert_eq!(size::<{t.text}>() as u128, {t.size}u128);"), t.decl),
        program((f"all values of {t!r}", f"assert_eq!(<{t.text} as Ordinal>::all_values().len() as u128, {t.size}u128);"), t.decl),
    ]


def value_uses(r, t, limit=LIMIT):
    """Programs that convert values, each with what it must print if it gets that far."""
    out = []
    ks = [t.size - 1, r.randrange(t.size), 0]
    if t.size > limit + 1:
        ks.append(limit + 1)
        ks.append(r.randrange(limit + 1, t.size))
    for k in ks:
        out.append((f"the ordinal of value {k} of {t!r}", t.decl,
                    f"let v: {t.text} = {t.at(k)};\nprintln!(\"got {{}}\", Ordinal::ordinal(black_box(&v)));", f"got {k}"))
    k = r.choice(ks)
    out.append((f"value {k & limit} of {t!r}", t.decl,
                f"let v: {t.text} = {t.at(k)};\n"
                f"println!(\"got {{}}\", <{t.text} as Ordinal>::from_ordinal(black_box({k & limit})) == Some(v));",
                f"got {'true' if k <= limit else 'false'}"))
    return out


def value_probes(ls, r, types, limit=LIMIT):
    """Whatever compiles must not print a wrong ordinal."""
    run = core()
    jobs = [(lab, i, u) for lab in ls for i, u in enumerate(u for t in types for u in value_uses(r, t, limit))]

    def one(x):
        lab, i, (what, decl, body, want) = x
        p = program((what, body), decl)
        if lab.compile(f"value{i}", p.source(), link=True) is not None:
            return "rejected"
        res = lab.run(f"value{i}")
        os.unlink(os.path.join(lab.dir, f"value{i}"))
        if res.rc == 101:
            return "panicked"
        if res.rc != 0:
            raise run.Inconclusive(f"{what} ({lab.name}): {res.how()}")
        if res.out.strip() != want:
            raise run.Violation(f"{what}: a program that compiles printed {res.out.strip()!r}, not {want!r} ({lab.name})",
                                {"source": p.source()}, {"source": p.source(), "build": lab.name})
        return "right"

    return parallel(one, jobs)


UNMAPPED = ["f32", "f64", "String", "&'static str", "Vec<u8>", "u64", "i64", "usize", "isize", "u128", "i128", "fn()",
            "*const u8", "std::rc::Rc<bool>", "std::cell::Cell<bool>", "std::collections::BTreeMap<u8, u8>", "&'static bool",
            "str", "[u8]"]


def unmapped_probes():
    good, bad = [], []

    def uses(t, sized=True):
        ps = [program((f"a mapping for {t}", f"fn need<K: Ordinal + ?Sized>() {{}}\nneed::<{t}>();"))]
        if sized:
            ps += [
                program((f"a map with keys {t}", f"let m = OrdinalMap::<{t}, u8>::new(); black_box(&m);")),
                program((f"a set of {t}", f"let m = OrdinalSet::<{t}>::new(); black_box(&m);")),
                program((f"a derived struct with a field of {t}", "black_box(1);"),
                        f"#[derive(ordinal_map::Ordinal)] pub struct S {{ a: bool, b: {t} }}\n"),
                program((f"a derived enum with a field of {t}", "black_box(1);"),
                        f"#[derive(ordinal_map::Ordinal)] pub enum S {{ A(bool), B({t}), C }}\n"),
            ]
        return ps

    for t in UNMAPPED:
        bad += uses(t, t not in ("str", "[u8]"))
    for wrap in ("Option<{}>", "(u8, {})", "[{}; 2]", "Result<bool, {}>", "Box<{}>", "either::Either<{}, bool>"):
        for t in ("f32", "String"):
            bad += uses(wrap.format(t))[:1]
        good += uses(wrap.format("bool"))
    for t in ("bool", "u8", "super::Color", "char", "()"):
        good += uses(t)
    union = "pub union U {{ a: bool, b: u8 }}\n"
    bad.append(program(("a derived union", "black_box(1);"), "#[derive(ordinal_map::Ordinal)] " + union.format()))
    bad.append(program(("a derived union of one field", "black_box(1);"), "#[derive(ordinal_map::Ordinal)] pub union U { a: bool }\n"))
    bad.append(program(("a derived generic union", "black_box(1);"),
                       "#[derive(ordinal_map::Ordinal)] pub union U<T: Copy + Ordinal> { a: T, b: u8 }\n"))
    good.append(program(("a union without a derive", "black_box(1);"), union.format()))
    return good, bad


def random_fits(r, want, limit, fit, over, pools=(SMALL, BIG, BIG, HUGE)):
    tries = nf = no = 0
    while (nf < want or no < want) and tries < 100 * want:
        tries += 1
        t = random_type(r, r.randrange(1, 4), pools)
        if not t.size or t.size > 1 << 400 or len(t.text) > 400:
            continue
        if t.size > limit and no < want:
            no += 1
            over.append(t)
        elif t.wide <= limit and nf < want:
            nf += 1
            fit.append(t)


def right_uses(r, types, limit):
    """Programs that use types that fit, which must compile and pass."""
    right = []
    for t in types:
        right += size_uses(t)
        for what, decl, body, out in value_uses(r, t, limit):
            # In one program with others: an assertion instead of a line to compare.
            body = body.replace('println!("got {}", ', "assert_eq!(\"" + out[4:] + "\", format!(\"{}\", ")[:-1] + ");"
            right.append(program((what, body), decl))
    return right


def c20(tier, runs):
    run = core()
    r = random.Random(run.SEED)
    COUNT[0] = 0
    ls = labs()
    good, bad = size_probes(r, tier)
    g, b = unmapped_probes()
    good += g
    bad += b
    fit, over = boundary_types()
    random_fits(r, 40 if tier == "quick" else 1500, LIMIT, fit, over)
    right = right_uses(r, fit, LIMIT)
    for t in over:
        us = size_uses(t)
        bad += us if tier == "thorough" else r.sample(us, 2)
        if r.random() < 0.3 or tier == "thorough":
            bad.append(program((f"a single-word set of {t!r}", f"let m = OrdinalSet64::<{t.text}>::new(); black_box(&m);"), t.decl))
    must_run(ls, good)
    must_run(ls, right, "sizes")
    rejected = must_fail(ls, bad)
    values = value_probes(ls, r, over)
    codes = {}
    for said in rejected:
        m = re.search(r"error\[(E\d+)\]", said)
        k = "rejected with " + (m.group(1) if m else "an error")
        codes[k] = codes.get(k, 0) + 1
    for v in values:
        codes["oversized conversions " + v] = codes.get("oversized conversions " + v, 0) + 1
    n = (len(good) + len(right) + len(bad)) * len(ls) + len(values)
    for lab in ls:
        shutil.rmtree(lab.dir, ignore_errors=True)
    return {
        "evaluations": n,
        "distinct_nontrivial": len({p.what for p in good + right + bad}) + len(values) // len(ls),
        "events_observed": n,
        "counters": {"programs that must compile and run": len(good) + len(right), "programs that must be rejected": len(bad), **codes},
        "samples": [r.choice(bad).what for _ in range(5)] + [r.choice(good).what for _ in range(3)],
        "runs": [{"run": f"rustc and programs ({lab.name})", "evaluations": n // len(ls)} for lab in ls],
    }


# ---------------------------------------------------------------- C21

def c21(tier):
    """What compiles for 32 bits: all types that fit, and no others."""
    run = core()
    r = random.Random(run.SEED + 32)
    COUNT[0] = 0
    narrow, wide = Lab(*NARROW_LAB), Lab(*LABS[0])
    parallel(lambda lab: lab.build(), [narrow, wide])
    fit, over = boundary_types32()
    random_fits(r, 30 if tier == "quick" else 600, LIMIT32, fit, over, POOLS32)
    right = right_uses(r, fit, LIMIT32)
    good, _ = size_probes(r, "quick")
    good = r.sample(good, 150) if tier == "quick" else good
    bad = []
    for t in over:
        us = size_uses(t)
        bad += us if tier == "thorough" else r.sample(us, 2)
    both = [t for t in over if t.wide <= LIMIT and "size" not in t.text + t.decl]
    # Only too large for 32 bits. Sizes of 2^32 as literals need u128 in any case.
    must_run([wide], right_uses(r, both, LIMIT), "wide")
    must_run([narrow], good)
    must_run([narrow], right, "sizes")
    must_fail([narrow], bad)
    values = value_probes([narrow], r, over, LIMIT32)
    n = len(right) + len(good) + len(bad) + len(values)
    for lab in (narrow, wide):
        shutil.rmtree(lab.dir, ignore_errors=True)
    return {
        "evaluations": n,
        "distinct_nontrivial": len({p.what for p in good + right + bad}),
        "events_observed": n,
        "counters": {"programs for 32 bits that must compile and run": len(good) + len(right),
                     "programs for 32 bits that must be rejected": len(bad),
                     "types that fit 64 bits only": len(both)},
        "samples": [r.choice(bad).what, r.choice(right).what],
        "runs": [{"run": "rustc and programs (32 bits)", "evaluations": n}],
    }


# ---------------------------------------------------------------- C22

# Type and function that makes one from a map or set, where the type has no public name.
OWNED = ["OrdinalMap<K, V>", "OrdinalArrayMap<K, V, 3>", "OrdinalTotalMap<K, V>", "OrdinalTotalArrayMap<K, V, 3>",
         "ordinal_map::map::IntoIter<K, V>", "ordinal_map::map::IntoIterArray<K, V, 3>",
         "ordinal_map::map::total::IntoIter<K, V>", "ordinal_map::map::total::IntoIterArray<K, V, 3>"]
BORROWED = ["ordinal_map::map::Iter<'static, K, V>", "ordinal_map::map::Values<'static, K, V>",
            "ordinal_map::map::total::Iter<'static, K, V>", "&'static OrdinalMap<K, V>", "&'static OrdinalTotalArrayMap<K, V, 3>",
            "OrdinalTotalArrayMap<K, &'static V, 3>", "OrdinalMap<K, &'static V>"]
MUTABLE = ["ordinal_map::map::IterMut<'static, K, V>", "ordinal_map::map::total::IterMut<'static, K, V>",
           "ordinal_map::map::Drain<'static, K, V>", "ordinal_map::map::Entry<'static, K, V>",
           "ordinal_map::map::OccupiedEntry<'static, K, V>", "ordinal_map::map::VacantEntry<'static, K, V>",
           "&'static mut OrdinalArrayMap<K, V, 3>", "OrdinalTotalArrayMap<K, &'static mut V, 3>"]
KEYED = ["OrdinalSet<K>", "OrdinalArraySet<K, 1>", "OrdinalSet64<K>", "AtomicOrdinal<K>", "OrdinalValues<K>",
         "ordinal_map::set::Iter<'static, K>", "Iter64<K>", "ordinal_map::map::Keys<'static, K, ()>"]
UNNAMED = [
    ("values_mut() of a heap map", "OrdinalMap<K, V>", "values_mut()"),
    ("values_mut() of an array map", "OrdinalArrayMap<K, V, 3>", "values_mut()"),
    ("values_mut() of a total map", "OrdinalTotalMap<K, V>", "values_mut()"),
    ("values_mut() of a total array map", "OrdinalTotalArrayMap<K, V, 3>", "values_mut()"),
    ("iter_mut() of an array map", "OrdinalArrayMap<K, V, 3>", "iter_mut()"),
    ("drain() of an array map", "OrdinalArrayMap<K, V, 3>", "drain()"),
    ("iter_mut() of a total array map", "OrdinalTotalArrayMap<K, V, 3>", "iter_mut()"),
]
NEED = "fn need<T: {0} + ?Sized>() {{}}\nfn need_of<T: {0}>(_: T) {{}}\n"


def thread_probes():
    """Programs that require thread safety of the library's types, for all key and value
    types that have it and for values that do not."""
    good, bad = [], []

    def generic(what, bounds, need, t=None, of=None):
        """For all K and V within bounds."""
        k, v = bounds
        head = NEED.format(need) + f"fn all<K: Ordinal + {k} + 'static, V: {v} + 'static>("
        if of:
            head += f"m: &'static mut {of[0]}) {{ need_of(m.{of[1]}); }}\n"
        else:
            head += f") {{ need::<{t}>(); }}\n"
        good.append(program((what, head + "black_box(1);")))

    both = ("Send + Sync", "Send + Sync")
    for t in OWNED + BORROWED + MUTABLE + KEYED:
        for need in ("Send", "Sync"):
            generic(f"{t} is {need} for keys and values that are Send and Sync", both, need, t)
    for t in OWNED + MUTABLE:
        generic(f"{t} is Send for keys and values that are Send", ("Send", "Send"), "Send", t)
    for t in OWNED + BORROWED:
        generic(f"{t} is Sync for keys and values that are Sync", ("Sync", "Sync"), "Sync", t)
    for what, m, call in UNNAMED:
        for need in ("Send", "Sync"):
            generic(f"{what} is {need} for keys and values that are Send and Sync", both, need, of=(m, call))
        generic(f"{what} is Send for keys and values that are Send", ("Send", "Send"), "Send", of=(m, call))

    def sub(t, v):
        return re.sub(r"\bV\b", v, re.sub(r"\bK\b", "super::Color", t))

    rc, cell, guard, ptr = ("std::rc::Rc<u8>", "std::cell::Cell<u8>", "std::sync::MutexGuard<'static, u8>", "*const u8")
    lacks = [(rc, ("Send", "Sync")), (cell, ("Sync",)), (guard, ("Send",)), (ptr, ("Send", "Sync")),
             ("std::cell::RefCell<u8>", ("Sync",)), ("std::rc::Weak<u8>", ("Send", "Sync")), ("Box<dyn Fn()>", ("Send", "Sync"))]
    for v, missing in lacks:
        for t in OWNED:
            for need in ("Send", "Sync"):
                p = program((f"{sub(t, v)} is {need}", NEED.format(need) + f"need::<{sub(t, v)}>();"))
                (bad if need in missing else good).append(p)
        for t in MUTABLE:
            for need in missing:
                bad.append(program((f"{sub(t, v)} is {need}", NEED.format(need) + f"need::<{sub(t, v)}>();")))
        for t in BORROWED:
            # A shared reference moves to another thread only if what it refers to may be shared.
            for need in ("Send", "Sync"):
                p = program((f"{sub(t, v)} is {need}", NEED.format(need) + f"need::<{sub(t, v)}>();"))
                (bad if "Sync" in missing else good).append(p)
        for what, m, call in UNNAMED:
            for need in missing:
                m1 = sub(m, v)
                bad.append(program((f"{what} of {m1} is {need}",
                                    NEED.format(need) + f"fn f(m: &'static mut {m1}) {{ need_of(m.{call}); }}\nblack_box(1);")))

    # The same in programs that start threads.
    for m, make in (("OrdinalMap<super::Color, V>", "let mut m: M = Default::default(); m.insert(super::Color::Red, VALUE);"),
                    ("OrdinalArrayMap<super::Color, V, 3>", "let mut m: M = Default::default(); m.insert(super::Color::Red, VALUE);"),
                    ("OrdinalTotalMap<super::Color, V>", "let m: M = OrdinalTotalMap::new(|_| VALUE);"),
                    ("OrdinalTotalArrayMap<super::Color, V, 3>", "let m: M = OrdinalTotalArrayMap::new(|_| VALUE);")):
        for v, value, send, sync in (("u8", "1", 1, 1), (rc, "std::rc::Rc::new(1)", 0, 0), (cell, "std::cell::Cell::new(1)", 1, 0),
                                     ("std::sync::Arc<u8>", "std::sync::Arc::new(1)", 1, 1)):
            decl = f"type M = {sub(m, v)};\n" + make.replace("VALUE", value)
            uses = [
                (f"moving {sub(m, v)} to a thread", "assert_eq!(std::thread::spawn(move || m.iter().count()).join().unwrap() > 0, true);", send),
                (f"moving an iterator of {sub(m, v)} to a thread",
                 "let it = m.into_iter();\nassert_eq!(std::thread::spawn(move || it.count()).join().unwrap() > 0, true);", send),
                (f"sharing {sub(m, v)} with threads",
                 "std::thread::scope(|s| { for _ in 0..2 { s.spawn(|| assert!(m.iter().count() > 0)); } });", sync),
                (f"sharing an iterator of {sub(m, v)} with threads",
                 "let it = m.iter();\nstd::thread::scope(|s| { for _ in 0..2 { s.spawn(|| assert!(it.clone().count() > 0)); } });", sync),
                (f"lending values of {sub(m, v)} to a thread",
                 "let mut m = m;\nstd::thread::scope(|s| { let mut it = m.iter_mut(); let a = it.next().unwrap().1;\n"
                 "s.spawn(move || it.count()); black_box(a); });", send),
            ]
            for what, body, ok in uses:
                (good if ok else bad).append(program((what, decl + "\n" + body)))
    return good, bad


def c22(tier):
    run = core()
    r = random.Random(run.SEED + 22)
    ls = [Lab(*LABS[0])]
    ls[0].build()
    good, bad = thread_probes()
    must_run(ls, good)
    must_fail(ls, bad)
    n = len(good) + len(bad)
    shutil.rmtree(ls[0].dir, ignore_errors=True)
    return {
        "evaluations": n,
        "distinct_nontrivial": len({p.what for p in good + bad}),
        "events_observed": n,
        "counters": {"programs that must compile": len(good), "programs that must be rejected": len(bad)},
        "samples": [r.choice(good).what for _ in range(2)] + [r.choice(bad).what for _ in range(2)],
        "runs": [{"run": "rustc and programs that need thread safety", "evaluations": n}],
    }
