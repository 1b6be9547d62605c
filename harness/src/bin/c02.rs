//! C02: Option, Result, Either, Box, tuples and arrays compose bijections.
use std::cmp::Ordering as Ord3;
use std::convert::Infallible as Never;
#[cfg(target_pointer_width = "64")]
use std::num::*;

use either::Either;
use harness::keys::Key;
use harness::model::ops;
use harness::model::round_trips;
use harness::model::Ops;
use harness::mon::Ctx;

type Flags<const N: usize> = [bool; N];

macro_rules! list {
    ($($t:ty;)*) => { vec![$(ops::<$t>(stringify!($t))),*] };
}

fn types() -> Vec<Ops> {
    #[allow(unused_mut)]
    let mut v = list! {
        // Option
        Option<Never>; Option<()>; Option<bool>; Option<u8>; Option<i8>; Option<char>; Option<u16>;
        Option<Option<Never>>; Option<Option<Option<()>>>; Option<Key<0>>; Option<Key<1>>; Option<Key<63>>; Option<Key<1000>>;
        // Result
        Result<Never, Never>; Result<(), Never>; Result<Never, ()>; Result<bool, Never>; Result<Never, u8>;
        Result<(), ()>; Result<bool, ()>; Result<(), bool>; Result<u8, bool>; Result<bool, u8>; Result<Key<5>, Key<7>>; Result<Key<7>, Key<5>>;
        Result<Option<bool>, Result<(), Ord3>>; Result<u16, i16>; Result<char, char>;
        // Either
        Either<Never, Never>; Either<(), Never>; Either<Never, ()>; Either<Never, u8>; Either<u8, Never>;
        Either<bool, ()>; Either<(), bool>; Either<Key<5>, Key<7>>; Either<Key<7>, Key<5>>; Either<u16, u8>;
        Either<Either<bool, Ord3>, Either<(), Option<bool>>>;
        // Box
        Box<Never>; Box<()>; Box<bool>; Box<u8>; Box<Option<Box<bool>>>; Box<Key<17>>; Box<[bool; 3]>; Box<(Key<3>, Key<4>)>;
        // arrays
        [Never; 0]; [Never; 1]; [Never; 2]; [Never; 5]; [(); 0]; [(); 1]; [(); 7]; [bool; 0]; [bool; 1]; [bool; 2]; [bool; 3]; [bool; 10]; [bool; 16];
        [Key<3>; 1]; [Key<3>; 2]; [Key<3>; 3]; [Key<3>; 7]; [Key<7>; 4]; [Key<1>; 9]; [Key<0>; 0]; [Key<0>; 3]; [Key<10>; 3]; [u8; 1]; [u8; 2]; [i8; 2]; [Ord3; 4];
        [Option<bool>; 3]; [[bool; 2]; 3]; [[Key<3>; 2]; 2]; [(bool, Key<3>); 3]; [Result<bool, ()>; 3]; [[(); 3]; 2]; [[Never; 0]; 3]; [[bool; 0]; 4]; [u16; 1];
        Flags<20>; [Key<5>; 8]; [Key<257>; 2];
        // tuples of every arity
        (); (bool,); (Key<5>,); (u16,); (Never,); ((),);
        (bool, Key<3>); (Key<3>, bool); (u8, bool); (bool, u8); (Key<2>, Key<5>); (Key<5>, Key<2>); (u8, i8); ((), bool); (bool, ()); (Never, bool); (bool, Never); (Never, Never); ((), ());
        (Key<2>, Key<3>, Key<5>); (Key<5>, Key<3>, Key<2>); (bool, Never, bool); (Never, bool, bool); (bool, bool, Never); ((), Key<4>, ()); (Key<4>, (), Key<3>);
        (Key<2>, Key<3>, Key<5>, Key<7>); (Key<7>, Key<1>, Key<3>, Key<2>);
        (Key<2>, Key<3>, Key<4>, Key<5>, Key<6>); (bool, (), bool, (), bool);
        (Key<2>, Key<3>, Key<4>, Key<5>, Key<2>, Key<3>); (bool, bool, bool, bool, Never, bool);
        (Key<2>, Key<3>, Key<4>, Key<5>, Key<2>, Key<3>, Key<2>);
        (Key<2>, Key<3>, Key<4>, Key<5>, Key<2>, Key<3>, Key<2>, Key<3>);
        (Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<3>, Key<2>);
        (Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<3>);
        (Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<3>, Key<1>);
        (Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<1>, Key<2>, Key<3>, Key<2>, Key<3>, Key<1>, Key<2>);
        (Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<1>, Key<2>, Key<3>, Key<2>, Key<3>, Key<1>, Key<2>, Key<3>);
        (Key<2>, Key<3>, Key<2>, Key<3>, Key<2>, Key<1>, Key<2>, Key<3>, Key<2>, Key<3>, Key<1>, Key<2>, Key<3>, Key<2>);
        (bool, bool, bool, bool, bool, bool, Key<3>, bool, bool, bool, bool, bool, bool, bool, Key<3>);
        (Key<3>, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, Key<3>);
        (bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, Never);
        ((), (), (), (), (), (), (), (), (), (), (), (), (), (), (), ());
        (Never, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool, bool);
        // mixed nesting
        (Option<bool>, Result<Key<3>, ()>, [bool; 2]); Option<(Option<Key<3>>, [Key<2>; 2])>; Result<(bool, Key<3>), [Key<3>; 2]>;
        Option<Result<Either<bool, Key<3>>, Box<Option<()>>>>; ([Never; 0], bool); ([Never; 1], bool); Result<[Never; 3], [bool; 2]>; Either<(Never, bool), Option<Never>>;
        Box<(Option<u8>, Result<bool, Ord3>)>; (Box<bool>, Box<Key<3>>); [Box<Key<3>>; 2]; Option<[Option<Key<2>>; 4]>; ((bool, (Key<3>, (bool, Key<2>))), Key<5>);
        (char, bool); (u16, Option<bool>); Option<(u8, i8)>; Result<(u8, u8), char>;
        // zero and one as factors of something large
        ((), u16); (u16, ()); (Key<1>, Key<60000>, Key<1>); (Key<60000>, Key<0>); (Key<0>, Key<60000>);
        // at the edge of 32 bits
        Option<Key<4294967294>>; (Key<65535>, Key<65537>); (Key<65537>, Key<65535>); Result<Key<2147483647>, Key<2147483648>>; Either<Key<4294967295>, Never>; [Key<65535>; 2]; Flags<31>;
        (Key<4294967295>, ()); ((), Key<4294967295>); (Key<4294967295>,); [Key<4294967295>; 1]; Box<Key<4294967295>>; Result<Never, Key<4294967295>>;
    };
    #[cfg(target_pointer_width = "64")]
    v.extend(list! {
        Option<u32>; Option<i32>; Result<u32, i32>; Either<u32, bool>; (u32, bool); (bool, u32); [u32; 1]; (u32, u16); (i32, NonZeroI32); (NonZeroU32, u32); Box<u32>; Box<NonZeroU64>;
        // at the edge of usize
        Option<Key<{ usize::MAX - 1 }>>; Option<(NonZeroU32, u32)>; (Key<4294967295>, Key<4294967297>); (Key<4294967297>, Key<4294967295>);
        Result<Key<{ usize::MAX / 2 }>, Key<{ usize::MAX / 2 + 1 }>>; Result<Key<{ usize::MAX - 1 }>, ()>; Result<(), Key<{ usize::MAX - 1 }>>;
        Either<Key<{ usize::MAX / 2 }>, Key<{ usize::MAX / 2 + 1 }>>; Either<Key<{ usize::MAX }>, Never>; Either<Never, Key<{ usize::MAX }>>; Result<Never, NonZeroU64>; Result<NonZeroI64, Never>;
        (NonZeroU64,); (NonZeroI64, ()); ((), NonZeroUsize); [NonZeroIsize; 1]; [Key<{ usize::MAX }>; 1]; Flags<63>; [u8; 7]; [u16; 3]; ([u8; 7], Flags<7>); (u32, u16, u8, Flags<7>); [Key<65535>; 4]; [Key<3>; 40]; [Key<7>; 22]; [Key<10>; 19];
        (u8, u8, u8, u8, u8, u8, u8, Key<255>);
        (Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>, Key<15>);
        (Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<16>, Key<15>);
        Option<[Key<4294967295>; 2]>; (Key<{ usize::MAX }>, ()); ((), (), Key<{ usize::MAX }>); (Key<3>, Key<6148914691236517205>); (Key<6148914691236517205>, Key<3>); Result<[u8; 7], Flags<63>>; (Option<u32>, NonZeroI32);
    });
    v
}

fn main() {
    let ctx = Ctx::from_args();
    round_trips(&ctx, &types());
    ctx.finish();
}
