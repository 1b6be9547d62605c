#!/usr/bin/env python3
"""Writes Rust type definitions that derive Ordinal, each with a reference model.

gen.py SEED COUNT DIR [32]: a fixed corpus of unusual shapes, then COUNT random definitions.
With 32, only types that fit the usize of a 32-bit target.
The model (harness::model::Model) is written per definition from the documentation:
variants in declaration order, fields lexicographically, by division in u128.
"""
import os
import random
import sys

WIDE = sys.argv[4:5] != ["32"]
LIMIT = 1 << (63 if WIDE else 31)

# ------------------------------------------------------------------ types


class Leaf:
    def __init__(self, text, size):
        self.text, self.n = text, size

    def rust(self, env):
        return self.text

    def size(self, env):
        return self.n


class Param:
    def __init__(self, name):
        self.name = name

    def rust(self, env):
        return env[self.name].rust(env) if self.name in env else self.name

    def size(self, env):
        return env[self.name].size(env)


class App:
    """Option, Result, Either, Box, tuple, array."""

    def __init__(self, kind, args, n=None):
        self.kind, self.args, self.n = kind, args, n

    def rust(self, env):
        a = [x.rust(env) for x in self.args]
        if self.kind == "tuple":
            return "(" + "".join(x + ", " for x in a) + ")"
        if self.kind == "array":
            n = env[self.n] if self.n in env else self.n
            return f"[{a[0]}; {n}]"
        return f"{self.kind}<{', '.join(a)}>"

    def size(self, env):
        s = [x.size(env) for x in self.args]
        if self.kind == "Option":
            return s[0] + 1
        if self.kind in ("Result", "Either"):
            return s[0] + s[1]
        if self.kind == "Box":
            return s[0]
        if self.kind == "array":
            return s[0] ** int(env[self.n] if self.n in env else self.n)
        p = 1
        for x in s:
            p *= x
        return p


class Use:
    """A generated type with arguments."""

    def __init__(self, d, args):
        self.d, self.args = d, args

    def rust(self, env):
        if not self.args:
            return self.d.path
        a = []
        for x in self.args:
            a.append(x.rust(env) if hasattr(x, "rust") else str(env.get(x, x)))
        return f"{self.d.path}<{', '.join(a)}>"

    def size(self, env):
        inner = {}
        for (kind, name, _), x in zip(self.d.generics, self.args):
            if kind == "lifetime":
                continue
            inner[name] = Leaf(x.rust(env), x.size(env)) if hasattr(x, "rust") else env.get(x, x)
        return self.d.size(inner)


NEVER = Leaf("Never", 0)
UNIT = Leaf("()", 1)
BOOL = Leaf("bool", 2)
ORD = Leaf("Ord3", 3)
U8, I8 = Leaf("u8", 256), Leaf("i8", 256)
NZU8, NZI8 = Leaf("NonZeroU8", 255), Leaf("NonZeroI8", 255)
U16, I16 = Leaf("u16", 1 << 16), Leaf("i16", 1 << 16)
NZI16 = Leaf("NonZeroI16", (1 << 16) - 1)
CHAR = Leaf("char", 0x110000 - 0x800)
U32, I32 = (Leaf("u32", 1 << 32), Leaf("i32", 1 << 32)) if WIDE else (U16, I16)
NZU32, NZI32 = Leaf("NonZeroU32", (1 << 32) - 1), Leaf("NonZeroI32", (1 << 32) - 1)


def key(n):
    return Leaf(f"Val<{n}>", n)


def opt(t):
    return App("Option", [t])


def res(a, b):
    return App("Result", [a, b])


def either(a, b):
    return App("Either", [a, b])


def box(a):
    return App("Box", [a])


def tup(*a):
    return App("tuple", list(a))


def arr(a, n):
    return App("array", [a], n)


# ------------------------------------------------------------ definitions


class Def:
    """variants: [(name, shape, [(field, type)])]; a struct has one, named None.
    generics: [(kind, name, bound or const type)], kind type, const or lifetime.
    discriminants: variant index -> text."""

    def __init__(self, name, variants, generics=(), where="", instances=None, enum=False,
                 discriminants=None, attrs="", wrap=None, order=True, module=None, vis="pub ",
                 default="", derive="::ordinal_map::Ordinal", field_attr=""):
        self.name, self.variants, self.generics = name, variants, list(generics)
        self.where, self.enum, self.discriminants = where, enum, discriminants or {}
        self.attrs, self.wrap, self.module, self.vis = attrs, wrap, module, vis
        self.order = order and not self.discriminants
        self.instances = instances if instances is not None else [[]]
        self.default, self.derive, self.field_attr = default, derive, field_attr

    @property
    def path(self):
        return f"{self.module}::{self.name}" if self.module else self.name

    def variant_size(self, fields, env):
        p = 1
        for _, t in fields:
            p *= t.size(env)
        return p

    def size(self, env):
        return sum(self.variant_size(f, env) for _, _, f in self.variants)

    def params(self, bounds):
        out = []
        for kind, name, extra in self.generics:
            if kind == "lifetime":
                out.append(name)
            elif kind == "const":
                out.append(f"const {name}: {extra}" if bounds else name)
            else:
                out.append(f"{name}: {extra}" if bounds and extra else name)
        return f"<{', '.join(out)}>" if out else ""

    def fields(self, shape, fields, vis):
        if shape == "unit":
            return ""
        if shape == "tuple":
            return "(" + ", ".join(f"{self.field_attr}{vis}{t.rust({})}" for _, t in fields) + ")"
        return "{ " + ", ".join(f"{self.field_attr}{vis}{n}: {t.rust({})}" for n, t in fields) + " }"

    def definition(self):
        std = "Clone, PartialEq, Eq, Debug, PartialOrd, Ord"
        head = (f"#[derive({std})]\n#[cfg_attr(not(feature = \"twin\"), derive({self.derive}))]\n{self.attrs}"
                f"{self.vis}{'enum' if self.enum else 'struct'} {self.name}{self.params(True) if not self.default else self.default}")
        where = f" where {self.where}" if self.where else ""
        if self.enum:
            vs = []
            for i, (n, shape, f) in enumerate(self.variants):
                d = f" = {self.discriminants[i]}" if i in self.discriminants else ""
                vs.append(f"    {n}{self.fields(shape, f, '')}{d},\n")
            return f"{head}{where} {{\n{''.join(vs)}}}\n"
        _, shape, f = self.variants[0]
        if shape == "record":
            return f"{head}{where} {self.fields(shape, f, self.vis)}\n"
        return f"{head}{self.fields(shape, f, self.vis)}{where};\n"

    def stub(self):
        """For the twin: generated types still have some mapping."""
        where = f" where {self.where}" if self.where else ""
        return (f"#[cfg(feature = \"twin\")]\nimpl{self.params(True)} ::ordinal_map::Ordinal for {self.name}{self.params(False)}{where} {{\n"
                "    const ORDINAL_SIZE: usize = 0;\n    fn ordinal(&self) -> usize { 0 }\n"
                "    fn from_ordinal(_: usize) -> ::std::option::Option<Self> { ::std::option::Option::None }\n}\n")

    def model(self):
        gp = []
        for kind, name, extra in self.generics:
            if kind == "lifetime":
                gp.append(name)
            elif kind == "const":
                gp.append(f"const {name}: {extra}")
            else:
                b = f"{extra} + " if extra else ""
                gp.append(f"{name}: {b}Model + Clone + PartialEq + Eq + std::fmt::Debug + PartialOrd + Ord")
        g = f"<{', '.join(gp)}>" if gp else ""
        where = f" where {self.where}" if self.where else ""
        mul = lambda fs: "1u128" + "".join(f".saturating_mul(<{t.rust({})} as Model>::size())" for _, t in fs)
        o = [f"#[cfg(not(feature = \"twin\"))]\nimpl{g} Model for {self.name}{self.params(False)}{where} {{\n"]
        units = sum(not f for _, _, f in self.variants)
        o.append(f"    fn size() -> u128 {{\n        {units}u128" + "".join(
            f"\n            .saturating_add({mul(f)})" for _, _, f in self.variants if f) + "\n    }\n")
        o.append("    fn make(mut r: u128) -> Self {\n")
        for n, shape, f in self.variants:
            path = f"Self::{n}" if self.enum else "Self"
            if not f:
                o.append(f"        if r == 0 {{ return {path} {{}}; }}\n        r -= 1;\n")
                continue
            o.append(f"        let s = {mul(f)};\n        if r < s {{\n")
            for i, (_, t) in reversed(list(enumerate(f))):
                o.append(f"            let x{i} = <{t.rust({})} as Model>::make(r % <{t.rust({})} as Model>::size());\n"
                         f"            r /= <{t.rust({})} as Model>::size();\n")
            names = [fn if shape == "record" else str(i) for i, (fn, _) in enumerate(f)]
            o.append("            return " + path + " { " + ", ".join(f"{m}: x{i}" for i, m in enumerate(names)) + " };\n        }\n        r -= s;\n")
        o.append("        unreachable!()\n    }\n")
        o.append("    fn rank(&self) -> u128 {\n")
        if not self.variants:
            o.append("        match *self {}\n")
        else:
            o.append("        let mut base = 0u128;\n")
            if all(not f for _, _, f in self.variants):
                o.append("        return match self {\n" + "".join(
                    f"            Self{'::' + n if self.enum else ''} {{}} => {i},\n" for i, (n, _, _) in enumerate(self.variants)) + "        };\n")
            for n, shape, f in self.variants:
                path = f"Self::{n}" if self.enum else "Self"
                if not f:
                    if any(f for _, _, f in self.variants):
                        o.append(f"        if let {path} {{}} = self {{ return base; }}\n        base += 1;\n")
                    continue
                names = [fn if shape == "record" else str(i) for i, (fn, _) in enumerate(f)]
                pat = path + " { " + ", ".join(f"{m}: x{i}" for i, m in enumerate(names)) + " }"
                o.append(f"        if let {pat} = self {{\n            let mut r = 0u128;\n")
                for i, (_, t) in enumerate(f):
                    o.append(f"            r = r * <{t.rust({})} as Model>::size() + Model::rank(x{i});\n")
                o.append(f"            return base + r;\n        }}\n        base += {mul(f)};\n")
            o.append("        unreachable!()\n")
        o.append("    }\n    fn show(&self) -> String {\n        format!(\"{self:?}\")\n    }\n}\n")
        return "".join(o)

    def uses(self):
        out = []
        for args in self.instances:
            u = Use(self, args)
            out.append((u.rust({}), u.size({})))
        return out


def struct(name, shape, fields, **kw):
    return Def(name, [(None, shape, named(fields))], **kw)


def enum(name, variants, **kw):
    return Def(name, [(v[0], v[1], named(v[2])) if len(v) == 3 else (v[0], "unit", []) for v in variants], enum=True, **kw)


def named(fields):
    return [f if isinstance(f, tuple) else (f"x{i}", f) for i, f in enumerate(fields)]


# Names that generated code, the prelude or the trait also use.
TRICKY = """rem ordinal size ORDINAL_SIZE Ordinal None Some Option Ok Err f0 f1 f2 f3 a b c x y r#type r#match r#fn r#struct
usize u8 bool std core ordinal_map from_ordinal _check_overflow _ignore _field_0 _field_1 _field_2 this self_ value i n v Box Result
MAX MIN unwrap div r#loop r#ref r#mut r#let Infallible T N é_ _0 __ count index len r#async r#dyn res ret tmp total
first rest tail first_ordinal rem_ordinal ordinal_size acc offset prefix base stride mul q d k e o s p Self_ field fields variant""".split()
# Names clashing with a variable or item at pattern position are the interesting ones,
# but a binding named like one of the corpus's own unit structs is a different matter.


def corpus():
    D = []
    add = D.append
    # structs of every shape
    add(struct("Unit", "unit", []))
    add(struct("Braces", "record", []))
    add(struct("Parens", "tuple", []))
    add(struct("One", "tuple", [ORD]))
    add(struct("OneRecord", "record", [("a", ORD)]))
    add(struct("Two", "tuple", [BOOL, ORD]))
    add(struct("TwoSwapped", "tuple", [ORD, BOOL]))
    add(struct("Rec3", "record", [("b", ORD), ("a", BOOL), ("c", key(5))]))
    add(struct("Rec4", "record", [("d", key(4)), ("c", key(3)), ("b", key(2)), ("a", key(5))]))
    add(struct("Wide17", "tuple", [BOOL] * 8 + [ORD] + [BOOL] * 5 + [UNIT, ORD, BOOL]))
    add(struct("Wide40", "tuple", [UNIT if i % 3 else BOOL for i in range(40)]))
    add(struct("Wide63", "tuple", [BOOL] * (62 if WIDE else 31) + [UNIT]))
    add(struct("WideRecord", "record", [(f"f{i}", BOOL if i % 2 else UNIT) for i in range(26)]))
    add(struct("Signed", "tuple", [I8, BOOL]))
    add(struct("Wide32", "tuple", [I32, U16 if WIDE else U8]))
    add(struct("Char", "record", [("c", CHAR), ("rem", BOOL)]))
    add(struct("AllOfIt", "tuple", [NZU32, I32 if WIDE else UNIT]))
    add(struct("Boxes", "tuple", [box(BOOL), box(opt(box(ORD)))]))
    add(struct("Nested", "record", [("a", opt(res(BOOL, ORD))), ("b", arr(opt(BOOL), 3)), ("c", tup(BOOL, ORD)), ("d", either(UNIT, BOOL))]))
    # no values
    add(enum("Nothing", []))
    add(struct("NeverField", "tuple", [NEVER]))
    add(struct("NeverFirst", "tuple", [NEVER, BOOL, ORD]))
    add(struct("NeverMiddle", "record", [("a", BOOL), ("rem", NEVER), ("c", ORD)]))
    add(struct("NeverLast", "tuple", [BOOL, ORD, NEVER]))
    add(struct("Nothings", "tuple", [Use(D[19], []), BOOL]))
    add(enum("OnlyNever", [("A", "tuple", [NEVER]), ("B", "tuple", [BOOL, NEVER])]))
    # enums of every shape
    add(enum("Single", [("A",)]))
    add(enum("Three", [("C",), ("A",), ("B",)]))
    add(enum("EmptyShapes", [("A", "unit", []), ("B", "tuple", []), ("C", "record", [])]))
    add(enum("TupleVariants", [("A", "tuple", [BOOL]), ("B", "tuple", [ORD, BOOL]), ("C", "tuple", [UNIT])]))
    add(enum("RecordVariants", [("Z", "record", [("b", BOOL), ("a", ORD)]), ("Y", "record", [("x", opt(BOOL))])]))
    add(enum("MixedVariants", [("A",), ("B", "tuple", [BOOL]), ("C", "record", [("a", ORD), ("b", BOOL)]), ("D",), ("E", "tuple", [I8])]))
    add(enum("NeverVariants", [("A", "tuple", [NEVER]), ("B",), ("C", "tuple", [BOOL, NEVER, ORD]), ("D", "tuple", [BOOL]), ("E", "record", [("e", NEVER)])]))
    add(enum("NeverAtEnd", [("A", "tuple", [BOOL]), ("B", "tuple", [NEVER])]))
    add(enum("NeverAtStart", [("B", "tuple", [NEVER]), ("A", "tuple", [BOOL])]))
    add(enum("UnitsOnly", [("A", "tuple", [UNIT]), ("B", "tuple", [UNIT, UNIT]), ("C", "record", [("a", UNIT)])]))
    add(enum("WideVariants", [("A", "tuple", [U32]), ("B",), ("C", "tuple", [I32, BOOL]), ("D", "tuple", [I16, I16 if WIDE else U8]), ("E",)]))
    add(enum("BigTuple", [("A",), ("B", "tuple", [BOOL] * 10), ("C", "tuple", [ORD, BOOL, ORD, BOOL, ORD])]))
    for n in (2, 8, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300):
        add(enum(f"Units{n}", [(f"V{i}",) for i in range(n)]))
    add(enum("Mixed70", [(f"V{i}", ["unit", "tuple", "record"][i % 3], [BOOL] * (i % 3)) for i in range(70)]))
    add(enum("Mixed90", [(f"V{i}", "tuple", [[UNIT], [BOOL], [ORD], [NEVER], [BOOL, ORD]][i % 5]) for i in range(90)]))
    # discriminants
    add(enum("Discr", [("A",), ("B",), ("C",)], discriminants={0: "10", 1: "5", 2: "7"}))
    add(enum("DiscrNeg", [("A",), ("B",), ("C",), ("D",)], discriminants={0: "-3", 2: "-100", 3: "i64::MAX"}, attrs="#[repr(i64)]\n"))
    add(enum("DiscrZeroLast", [("A",), ("B",), ("C",)], discriminants={0: "2", 1: "1", 2: "0"}))
    add(enum("DiscrU8", [("A",), ("B",), ("C",)], discriminants={1: "0xff", 0: "128", 2: "b'x'"}, attrs="#[repr(u8)]\n"))
    add(enum("DiscrExpr", [("A",), ("B",), ("C",)], discriminants={0: "1 << 4", 2: "{ 3 + 4 }"}))
    add(enum("DiscrFields", [("A", "tuple", [BOOL]), ("B",), ("C", "record", [("rem", ORD)])], discriminants={0: "9", 1: "4", 2: "6"}, attrs="#[repr(u16)]\n"))
    add(enum("Sequential", [("A",), ("B",), ("C",)], discriminants={0: "0", 1: "1", 2: "2"}))
    # representations and attributes
    add(struct("Transparent", "tuple", [key(9)], attrs="#[repr(transparent)]\n"))
    add(struct("ReprC", "record", [("a", BOOL), ("b", U16)], attrs="#[repr(C)]\n"))
    add(struct("Aligned", "tuple", [BOOL, ORD], attrs="#[repr(align(64))]\n#[non_exhaustive]\n#[doc = \"documented\"]\n"))
    add(enum("ReprC2", [("A", "tuple", [BOOL]), ("B",)], attrs="#[repr(C, u8)]\n#[must_use]\n"))
    add(struct("Docs", "record", [("a", BOOL), ("b", ORD)], field_attr="#[doc = \"a field\"] #[allow(dead_code)] "))
    add(enum("Depr", [("A",), ("B", "tuple", [BOOL])], attrs="#[allow(non_camel_case_types)]\n#[deprecated]\n"))
    # names
    for i, n in enumerate(TRICKY):
        add(struct(f"NamedRec{i}", "record", [(n, BOOL), ("other", ORD)]))
        add(enum(f"NamedBoth{i}", [("First",), (n, "record", [("other", BOOL), (n, ORD)]), ("Last", "record", [(n, BOOL)])]))
    add(struct("AllTricky", "record", [(n, [UNIT, BOOL][i % 4 == 0]) for i, n in enumerate(TRICKY)]))
    add(enum("AllTrickyVariants", [(n, ["unit", "tuple", "record"][i % 3], [(TRICKY[(i * 7 + j) % len(TRICKY)], [BOOL, ORD][j]) for j in range(i % 3)]) for i, n in enumerate(TRICKY)]))
    add(enum("Shadowed", [("_field_0",), ("_field_1",), ("a",), ("f0",), ("x", "tuple", [BOOL, ORD]), ("y", "record", [("a", BOOL), ("y", ORD), ("x", BOOL)]), ("f1", "tuple", [ORD, BOOL])]))
    add(struct("r#struct", "record", [("r#fn", BOOL)]))
    add(enum("r#enum", [("r#type",), ("r#match", "tuple", [BOOL])]))
    add(struct("lowercase", "record", [("lowercase", BOOL), ("Lowercase", ORD)]))
    # generics
    T, U = Param("T"), Param("U")
    tb = ("type", "T", "::ordinal_map::Ordinal")
    ub = ("type", "U", "::ordinal_map::Ordinal")
    add(struct("G1", "tuple", [T], generics=[tb], instances=[[BOOL], [NEVER], [UNIT], [I8], [opt(ORD)], [U32]]))
    add(struct("G2", "record", [("rem", T), ("ordinal", U)], generics=[tb, ub], instances=[[BOOL, ORD], [ORD, BOOL], [NEVER, BOOL], [BOOL, NEVER], [UNIT, U16]]))
    add(struct("G3", "tuple", [T, BOOL, T], generics=[tb], instances=[[BOOL], [ORD], [NEVER], [UNIT], [key(7)], [I16]]))
    add(enum("GE", [("None",), ("Some", "tuple", [T])], generics=[tb], instances=[[BOOL], [NEVER], [I8], [key(63)], [U32]]))
    add(enum("GE2", [("A", "tuple", [T]), ("B", "tuple", [U]), ("C", "record", [("a", T), ("b", U)]), ("D",)], generics=[tb, ub],
             instances=[[BOOL, ORD], [NEVER, ORD], [ORD, NEVER], [NEVER, NEVER], [UNIT, UNIT], [I8, I8]]))
    add(struct("GW", "tuple", [T, opt(T)], generics=[("type", "T", "")], where="T: ::ordinal_map::Ordinal", instances=[[BOOL], [NEVER], [I8]]))
    add(struct("GW2", "record", [("a", res(T, U))], generics=[("type", "T", "::std::fmt::Debug"), ("type", "U", "")],
               where="T: ::ordinal_map::Ordinal + ::std::fmt::Debug, U: ::ordinal_map::Ordinal,", instances=[[BOOL, ORD], [NEVER, ORD]]))
    add(struct("GN", "tuple", [arr(BOOL, "N")], generics=[("const", "N", "usize")], instances=[[0], [1], [2], [5], [12]]))
    add(struct("GTN", "record", [("xs", arr(T, "N")), ("rem", BOOL)], generics=[tb, ("const", "N", "usize")], instances=[[ORD, 3], [NEVER, 0], [NEVER, 2], [BOOL, 6], [UNIT, 9]]))
    add(enum("GEN", [("A",), ("B", "tuple", [arr(T, "N"), BOOL])], generics=[("type", "T", ""), ("const", "N", "usize")], where="T: ::ordinal_map::Ordinal", instances=[[ORD, 2], [BOOL, 5], [NEVER, 1]]))
    add(struct("GDef", "tuple", [T, BOOL], generics=[tb], default="<T: ::ordinal_map::Ordinal = bool>", instances=[[BOOL], [ORD]]))
    add(struct("GKey", "tuple", [Leaf("Val<N>", 0)], generics=[("const", "N", "usize")], instances=[]))
    add(struct("GNested", "tuple", [opt(tup(T, arr(T, 2))), box(T)], generics=[tb], instances=[[BOOL], [ORD], [NEVER]]))
    g2 = D[-2]
    ge = next(d for d in D if d.name == "GE")
    add(enum("GOfG", [("X", "tuple", [Use(ge, [T])]), ("Y", "tuple", [Use(ge, [Use(ge, [BOOL])])])], generics=[tb], instances=[[BOOL], [NEVER], [Use(ge, [ORD])]]))
    add(struct("Marked", "tuple", [Leaf("Tag<'a>", 3), BOOL], generics=[("lifetime", "'a", "")], instances=[[Leaf("'static", 0)]]))
    add(enum("MarkedE", [("A", "tuple", [Leaf("Tag<'a>", 3), T]), ("B", "record", [("t", Leaf("Tag<'a>", 3))]), ("C",)], generics=[("lifetime", "'a", ""), tb],
             instances=[[Leaf("'static", 0), BOOL], [Leaf("'static", 0), NEVER]]))
    # visibility, modules, imports
    add(struct("Inner", "record", [("a", BOOL), ("b", ORD)], module="m1", derive="ordinal_map::Ordinal"))
    add(enum("InnerE", [("Some", "tuple", [BOOL]), ("None",)], module="m2", derive="Ordinal"))
    add(struct("Priv", "tuple", [BOOL, ORD], module="m3", vis="pub(crate) ", derive="Renamed"))
    add(enum("InFn", [("A", "tuple", [BOOL]), ("B", "record", [("rem", ORD), ("rest", BOOL)])], wrap="fn"))
    add(struct("InFn2", "record", [("None", BOOL), ("b", ORD)], wrap="fn"))
    add(enum("InMacro", [("A", "tuple", [BOOL]), ("B", "record", [("rem", ORD)]), ("C",)], wrap="macro"))
    add(struct("InMacro2", "record", [("rem", BOOL), ("ordinal", opt(ORD))], wrap="macro"))
    return D


# ----------------------------------------------------------------- random


def random_type(r, depth, params, defs):
    roll = r.random()
    if params and roll < 0.3:
        return Param(r.choice(params))
    if defs and roll < 0.4:
        d = r.choice(defs)
        return Use(d, [random_type(r, 0, params, []) for _ in d.generics])
    if depth > 0 and roll < 0.6:
        k = r.randrange(7)
        sub = lambda: random_type(r, depth - 1, params, defs)
        if k == 0:
            return opt(sub())
        if k == 1:
            return res(sub(), sub())
        if k == 2:
            return either(sub(), sub())
        if k == 3:
            return box(sub())
        if k == 4:
            return arr(sub(), r.choice([0, 1, 2, 2, 3]))
        return tup(*[sub() for _ in range(r.choice([0, 1, 2, 2, 3, 4]))])
    return r.choices([BOOL, UNIT, ORD, NEVER, U8, I8, NZU8, NZI8, I16, U16, NZI16, CHAR, U32, I32, NZI32, NZU32,
                      key(r.choice([1, 2, 3, 4, 5, 7, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1000]))],
                     [14, 6, 10, 2, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 10])[0]


def random_def(r, i, defs):
    name = f"R{i}"
    params = r.choice([[], [], [], ["T"], ["T", "U"]])
    simple = [d for d in defs if len(d.generics) <= 1 and d.instances and d.wrap != "fn"]
    used = set()

    def fields(most):
        n = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, most])
        out, names = [], set()
        for j in range(n):
            nm = r.choice(TRICKY) if r.random() < 0.5 else f"x{j}"
            while nm in names:
                nm += "_"
            names.add(nm)
            out.append((nm, random_type(r, 2, params, simple)))
        return out

    if r.random() < 0.45:
        variants = [(None, r.choice(["tuple", "record"]), fields(9))]
        is_enum = False
    else:
        variants, names = [], set()
        for j in range(r.choice([0, 1, 2, 3, 3, 4, 5, 6, 9, 20])):
            nm = r.choice(TRICKY) if r.random() < 0.3 else f"V{j}"
            while nm in names:
                nm += "_"
            names.add(nm)
            f = fields(5)
            variants.append((nm, r.choice(["tuple", "record"]) if f else r.choice(["unit", "tuple", "record"]), f))
        is_enum = True
    text = " ".join(t.rust({}) for _, _, f in variants for _, t in f)
    toks = set("".join(c if c.isalnum() or c == "_" else " " for c in text).split())
    params = [p for p in params if p in toks]
    mode = r.random()
    if mode < 0.5:
        generics = [("type", p, "::ordinal_map::Ordinal") for p in params]
        where = ""
    else:
        generics = [("type", p, "") for p in params]
        where = ", ".join(f"{p}: ::ordinal_map::Ordinal" for p in params)
    disc = {}
    if is_enum and variants and not params and r.random() < 0.25 and all(not f for _, _, f in variants):
        vals = r.sample(range(-50, 200), len(variants))
        disc = {j: str(v) for j, v in enumerate(vals)}
    kw = dict(enum=is_enum, discriminants=disc)
    if disc and any(s != "unit" for _, s, _ in variants):
        kw["attrs"] = "#[repr(i16)]\n"
    if disc and not kw.get("attrs"):
        kw["attrs"] = r.choice(["", "#[repr(i16)]\n"])
    if not disc:
        kw["wrap"] = r.choices([None, "fn", "macro"], [8, 1, 1])[0] if not params else None
    d = Def(name, variants, generics=generics, where=where, instances=[], **kw)
    tries = [[]] if not params else [[random_type(r, 1, [], []) for _ in params] for _ in range(3)]
    for args in tries:
        try:
            if Use(d, args).size({}) < LIMIT and fits(d, args):
                d.instances.append(args)
        except RecursionError:
            pass
    return d


def fits(d, args):
    """Every size computed on the way stays below the limit: a product that overflows
    before it meets a zero is a compile error, which is fine for the user's purposes
    but makes no test."""
    env = {name: a for (_, name, _), a in zip(d.generics, args)}

    def bounded(n):
        if n >= LIMIT:
            raise OverflowError
        return n

    def size1(t):
        # Zero counts as one here.
        if isinstance(t, Leaf):
            return max(t.n, 1)
        if isinstance(t, Param):
            return size1(env[t.name])
        if isinstance(t, Use):
            inner = dict(zip((g[1] for g in t.d.generics), t.args))
            return bounded(sum(prod(subst(x, inner) for _, x in f) for _, _, f in t.d.variants) or 1)
        s = [size1(x) for x in t.args]
        if t.kind == "array":
            n = t.n if str(t.n).isdigit() else env.get(t.n, 1)
            return bounded(s[0] ** max(int(n) if str(n).isdigit() else 1, 1))
        if t.kind in ("Option", "Result", "Either"):
            return bounded(sum(s) + 1)
        p = 1
        for x in s:
            p = bounded(p * x)
        return p

    def subst(t, inner):
        if isinstance(t, Param):
            return inner[t.name]
        if isinstance(t, App):
            return App(t.kind, [subst(x, inner) for x in t.args], t.n)
        if isinstance(t, Use):
            return Use(t.d, [subst(x, inner) for x in t.args])
        return t

    def prod(ts):
        p = 1
        for t in ts:
            p = bounded(p * size1(t))
        return p

    try:
        bounded(sum(prod(t for _, t in f) for _, _, f in d.variants))
    except OverflowError:
        return False
    return True


# ----------------------------------------------------------------- output


def emit(defs):
    out = ["// Generated by gen.py.\n", TAG]
    mods = {}
    mappings, orders = [], []
    for d in defs:
        code = d.definition() + d.stub() + d.model()
        names = [(t, s) for t, s in d.uses()]
        m = [f"    v.push(model::ops::<{t}>({rs(t)}));\n" for t, _ in names]
        o = [f"    v.push(order::{'ops' if d.order else 'declared'}::<{t}>({rs(t)}));\n" for t, _ in names]
        if d.wrap == "fn":
            out.append(
                f"#[cfg(feature = \"twin\")]\nfn in_{d.name}() {{\n{d.definition()}{d.stub()}}}\n"
                f"#[cfg(not(feature = \"twin\"))]\nfn in_{d.name}(v: &mut Vec<model::Ops>, w: &mut Vec<order::Ops>) {{\n{code}{''.join(m)}"
                f"{''.join(o).replace('v.push', 'w.push')}}}\n")
            mappings.append(f"    in_{d.name}(v, &mut Vec::new());\n")
            orders.append(f"    in_{d.name}(&mut Vec::new(), v);\n")
            continue
        if d.wrap == "macro":
            # Field types, names and the definition go through macro fragments.
            out.append(macro(d) + d.stub() + d.model())
        elif d.module:
            imports = {"Ordinal": "use ordinal_map::Ordinal;", "Renamed": "use ordinal_map::Ordinal as Renamed;"}.get(d.derive, "")
            out.append(f"pub mod {d.module} {{\nuse super::{{Never, Ord3}};\n#[cfg(not(feature = \"twin\"))] use super::Model;\n{imports}\n{code}}}\n")
        else:
            out.append(code)
        mappings += m
        orders += o
    for name, ty, lines in (("mappings", "model::Ops", mappings), ("orders", "order::Ops", orders)):
        chunks = [lines[i:i + 100] for i in range(0, len(lines), 100)]
        for i, c in enumerate(chunks):
            out.append(f"#[cfg(not(feature = \"twin\"))]\nfn {name}_{i}(v: &mut Vec<{ty}>) {{\n{''.join(c)}}}\n")
        out.append(f"#[cfg(not(feature = \"twin\"))]\nfn {name}(v: &mut Vec<{ty}>) {{\n" + "".join(f"    {name}_{i}(v);\n" for i in range(len(chunks))) + "}\n")
    return "".join(out)


def rs(t):
    return '"' + t.replace('"', '\\"') + '"'


def macro(d):
    """The definition written by a macro: types as $t:ty, fields as $f:ident."""
    pats, args, n = [], [], 0
    body = []
    for vn, shape, f in d.variants:
        fs = []
        for fn, t in f:
            pats.append(f"$f{n}:ident: $t{n}:ty")
            args.append(f"{fn}: {t.rust({})}")
            fs.append((f"$f{n}", Leaf(f"$t{n}", 0)))
            n += 1
        body.append((vn, shape, fs))
    e = Def(d.name, body, enum=d.enum, attrs=d.attrs)
    return (f"macro_rules! make_{d.name} {{ ({', '.join(pats)}) => {{\n{e.definition()}}} }}\n"
            f"make_{d.name}!({', '.join(args)});\n")


TAG = """
/// A mapping by hand, with a lifetime.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Tag<'a>(u8, std::marker::PhantomData<&'a str>);
impl<'a> std::fmt::Debug for Tag<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tag({})", self.0)
    }
}
impl<'a> ::ordinal_map::Ordinal for Tag<'a> {
    const ORDINAL_SIZE: usize = 3;
    fn ordinal(&self) -> usize {
        self.0 as usize
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        if o < 3 { Some(Tag(o as u8, std::marker::PhantomData)) } else { None }
    }
}
#[cfg(not(feature = "twin"))]
impl<'a> Model for Tag<'a> {
    fn size() -> u128 { 3 }
    fn make(r: u128) -> Self { Tag(r as u8, std::marker::PhantomData) }
    fn rank(&self) -> u128 { self.0 as u128 }
    fn show(&self) -> String { format!("{self:?}") }
}
"""


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    r = random.Random(seed * 1000003 + 17)
    defs = corpus()
    if not WIDE:
        for d in defs:
            if d.generics:
                d.instances = [a for a in d.instances if fits(d, a)]
    plain = []
    i = 0
    while len(plain) < count:
        d = random_def(r, i, plain[-40:])
        i += 1
        if d.instances:
            plain.append(d)
    os.makedirs(out, exist_ok=True)
    text = emit(defs + plain)
    path = os.path.join(out, "types.rs")
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)
    print(len(defs), "fixed and", len(plain), "random definitions,", sum(len(d.instances) for d in defs + plain), "types")


if __name__ == "__main__":
    main()
