//! Reference mapping of composed types in `u128`, written from the documentation:
//! sizes by sum and product, None before Some, Ok before Err, Left before Right,
//! products lexicographically with the first component most significant.

use either::Either;
use ordinal_map::Ordinal;

use crate::keys::Key;
use crate::keys::TestKey;
use crate::leaf::interesting;
use crate::leaf::Leaf;
use crate::mon::catch;
use crate::mon::violate;
use crate::mon::Caught;
use crate::mon::Ctx;
use crate::op;

pub trait Model: Ordinal {
    /// Number of values; saturates.
    fn size() -> u128;
    /// The value with rank `r`, `r < size()`.
    fn make(r: u128) -> Self;
    fn rank(&self) -> u128;
    fn show(&self) -> String;
}

macro_rules! leaves {
    ($($t:ty,)*) => {$(
        impl Model for $t {
            fn size() -> u128 {
                <$t as Leaf>::COUNT
            }
            fn make(r: u128) -> Self {
                <$t as Leaf>::nth(r)
            }
            fn rank(&self) -> u128 {
                Leaf::rank(self)
            }
            fn show(&self) -> String {
                format!("{self:?}")
            }
        }
    )*};
}

use std::num::*;
leaves! {
    bool, char, std::cmp::Ordering, std::convert::Infallible, u8, i8, u16, i16,
    NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32, NonZeroUsize, NonZeroIsize,
}
#[cfg(target_pointer_width = "64")]
leaves! { u32, i32, NonZeroU64, NonZeroI64, }

/// A user's mapping with any number of values.
impl<const N: usize> Model for Key<N> {
    fn size() -> u128 {
        N as u128
    }
    fn make(r: u128) -> Self {
        Key::at(r as usize)
    }
    fn rank(&self) -> u128 {
        self.idx() as u128
    }
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

impl<A: Model> Model for Option<A> {
    fn size() -> u128 {
        A::size().saturating_add(1)
    }
    fn make(r: u128) -> Self {
        if r == 0 {
            None
        } else {
            Some(A::make(r - 1))
        }
    }
    fn rank(&self) -> u128 {
        match self {
            None => 0,
            Some(a) => 1 + a.rank(),
        }
    }
    fn show(&self) -> String {
        match self {
            None => "None".into(),
            Some(a) => format!("Some({})", a.show()),
        }
    }
}

impl<A: Model, B: Model> Model for Result<A, B> {
    fn size() -> u128 {
        A::size().saturating_add(B::size())
    }
    fn make(r: u128) -> Self {
        if r < A::size() {
            Ok(A::make(r))
        } else {
            Err(B::make(r - A::size()))
        }
    }
    fn rank(&self) -> u128 {
        match self {
            Ok(a) => a.rank(),
            Err(b) => A::size() + b.rank(),
        }
    }
    fn show(&self) -> String {
        match self {
            Ok(a) => format!("Ok({})", a.show()),
            Err(a) => format!("Err({})", a.show()),
        }
    }
}

impl<A: Model, B: Model> Model for Either<A, B> {
    fn size() -> u128 {
        A::size().saturating_add(B::size())
    }
    fn make(r: u128) -> Self {
        if r < A::size() {
            Either::Left(A::make(r))
        } else {
            Either::Right(B::make(r - A::size()))
        }
    }
    fn rank(&self) -> u128 {
        match self {
            Either::Left(a) => a.rank(),
            Either::Right(b) => A::size() + b.rank(),
        }
    }
    fn show(&self) -> String {
        match self {
            Either::Left(a) => format!("Left({})", a.show()),
            Either::Right(a) => format!("Right({})", a.show()),
        }
    }
}

impl<A: Model> Model for Box<A> {
    fn size() -> u128 {
        A::size()
    }
    fn make(r: u128) -> Self {
        Box::new(A::make(r))
    }
    fn rank(&self) -> u128 {
        (**self).rank()
    }
    fn show(&self) -> String {
        format!("Box({})", (**self).show())
    }
}

impl<A: Model, const N: usize> Model for [A; N] {
    fn size() -> u128 {
        (0..N).fold(1, |s: u128, _| s.saturating_mul(A::size()))
    }
    fn make(mut r: u128) -> Self {
        let mut digits = [0u128; N];
        for d in digits.iter_mut().rev() {
            *d = r % A::size();
            r /= A::size();
        }
        digits.map(A::make)
    }
    fn rank(&self) -> u128 {
        self.iter().fold(0, |r, a| r * A::size() + a.rank())
    }
    fn show(&self) -> String {
        let v: Vec<String> = self.iter().map(|a| a.show()).collect();
        format!("[{}]", v.join(", "))
    }
}

impl Model for () {
    fn size() -> u128 {
        1
    }
    fn make(_: u128) -> Self {}
    fn rank(&self) -> u128 {
        0
    }
    fn show(&self) -> String {
        "()".into()
    }
}

macro_rules! tuple {
    ($($a:ident $i:tt),*) => {
        impl<$($a: Model),*> Model for ($($a,)*) {
            fn size() -> u128 {
                [$($a::size()),*].iter().fold(1, |s: u128, x| s.saturating_mul(*x))
            }
            fn make(mut r: u128) -> Self {
                let sizes = [$($a::size()),*];
                let mut digits = [0u128; [$($i),*].len()];
                for i in (0..sizes.len()).rev() {
                    digits[i] = r % sizes[i];
                    r /= sizes[i];
                }
                ($($a::make(digits[$i]),)*)
            }
            fn rank(&self) -> u128 {
                let mut r = 0;
                $(r = r * $a::size() + self.$i.rank();)*
                r
            }
            fn show(&self) -> String {
                let v = [$(self.$i.show()),*];
                format!("({},)", v.join(", "))
            }
        }
    };
}

tuple!(A 0);
tuple!(A 0, B 1);
tuple!(A 0, B 1, C 2);
tuple!(A 0, B 1, C 2, D 3);
tuple!(A 0, B 1, C 2, D 3, E 4);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14);
tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);

/// Compile-time facts about a type, so that the checks are compiled once.
pub struct Ops {
    pub name: &'static str,
    pub ordinal_size: usize,
    pub size: u128,
    /// ordinal() of the value with this rank
    pub ordinal: fn(u128) -> usize,
    /// rank of the value from_ordinal gives
    pub from: fn(usize) -> Option<u128>,
    pub show: fn(u128) -> String,
}

pub fn ops<T: Model>(name: &'static str) -> Ops {
    Ops {
        name,
        ordinal_size: T::ORDINAL_SIZE,
        size: T::size(),
        ordinal: |r| T::make(r).ordinal(),
        from: |o| T::from_ordinal(o).map(|v| v.rank()),
        show: |r| T::make(r).show(),
    }
}

fn at(t: &Ops, x: u128) {
    let r = catch(|| {
        if x < t.size {
            let o = (t.ordinal)(x);
            if o as u128 != x {
                violate(format!("{}: {} has ordinal {o}, expected {x}", t.name, (t.show)(x)));
            }
        }
        if x <= usize::MAX as u128 {
            let e = (x < t.size).then_some(x);
            let g = (t.from)(x as usize);
            if g != e {
                let f = |r: Option<u128>| match r {
                    None => "None".to_string(),
                    Some(r) if r < t.size => format!("Some({}) (#{r})", (t.show)(r)),
                    Some(r) => format!("Some(#{r})"),
                };
                violate(format!("{}: from_ordinal({x}) = {}, expected {}", t.name, f(g), f(e)));
            }
        }
    });
    if let Caught::Panic(m) = r {
        violate(format!("{}: conversion of #{x} panicked: {m}", t.name));
    }
}

/// Round trips of all types in both directions.
pub fn round_trips(ctx: &Ctx, all: &[Ops]) {
    let dict = crate::mon::dict();
    ctx.sample(format!("{} types", all.len()));
    let limit = if crate::mon::small() { 40 } else { ctx.n(70_000, 1_200_000) as u128 };
    let n = if crate::mon::small() && !ctx.thorough { all.len().min(60) } else { all.len() };
    ctx.cases("size, small ordinals and boundaries", n, |_, case| {
        let t = &all[case.index];
        op!("{}", t.name);
        if t.ordinal_size as u128 != t.size {
            violate(format!("{}: ORDINAL_SIZE is {}, expected {}", t.name, t.ordinal_size, t.size));
        }
        case.obs(t.ordinal_size as u64);
        let n = limit.min(t.size + 300);
        for x in 0..n {
            at(t, x);
        }
        if t.size <= limit {
            case.count("types checked exhaustively");
        }
        case.add("ordinals from the start", n as u64);
        let mut xs = interesting(&dict, t.size);
        if crate::mon::small() {
            xs.retain(|x| x % 7 == 0);
        }
        for x in &xs {
            at(t, *x);
            case.obs(*x as u64);
        }
        at(t, usize::MAX as u128);
        at(t, t.size);
        if t.size > 0 {
            at(t, t.size - 1);
            // Distinct: the round trip above is against an injective model.
            case.mark();
        }
        case.add("boundary ordinals", xs.len() as u64);
    });
    let rounds = ctx.n(4, 100);
    ctx.cases("random", n * rounds, |rng, case| {
        let t = &all[case.index % n];
        for _ in 0..if crate::mon::small() { 15 } else { 250 } {
            let raw = rng.u64() as u128 >> rng.below(64);
            let x = match rng.below(5) {
                0 | 1 => rng.u64() as u128 % t.size.max(1),
                2 => raw,
                3 => t.size.saturating_sub(1 + raw),
                _ => t.size + raw,
            };
            op!("{}: #{x}", t.name);
            at(t, x);
            case.obs(x as u64);
            case.count("random ordinals");
        }
        case.mark();
    });
}
