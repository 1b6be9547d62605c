//! C17: heap allocation happens only where documented.
use harness::alloc;
use harness::heap;
use harness::keys::Color;
use harness::keys::Key;
use harness::keys::Mixed;
use harness::maps::size;
use harness::mon::Ctx;
use harness::vals::Wide;
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::ordinal_array_set_s;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;
use ordinal_map::set::OrdinalSet64;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

macro_rules! maps {
    ($ctx:expr, $n:expr, $t:expr, [$($k:ty),*] $v:tt) => {
        $( maps!(@key $ctx, $n, $t, $k, $v); )*
    };
    (@key $ctx:expr, $n:expr, $t:expr, $k:ty, [$($v:ty),*]) => {
        $(
            let name = concat!(stringify!($k), " to ", stringify!($v));
            $ctx.cases(&format!("heap map, {name}"), $n, |r, c| heap::sparse::<OrdinalMap<$k, $v>>(r, c, true));
            $ctx.cases(&format!("heap total map, {name}"), $t, |r, c| {
                heap::total::<OrdinalTotalMap<$k, $v>>(r, c, true);
                heap::total_heap::<$k, $v>(r, c);
            });
        )*
    };
}

macro_rules! arrays {
    ($ctx:expr, $n:expr, [$($k:ty),*] $v:tt) => {
        $( arrays!(@key $ctx, $n, $k, $v); )*
    };
    (@key $ctx:expr, $n:expr, $k:ty, [$($v:ty),*]) => {
        $(
            let name = concat!(stringify!($k), " to ", stringify!($v));
            $ctx.cases(&format!("array map, {name}"), $n, |r, c| {
                heap::sparse::<OrdinalArrayMap<$k, $v, { size::<$k>() }>>(r, c, false)
            });
            $ctx.cases(&format!("total array map, {name}"), $n, |r, c| {
                heap::total::<OrdinalTotalArrayMap<$k, $v, { size::<$k>() }>>(r, c, false);
                heap::total_array::<$k, $v, { size::<$k>() }>(r, c);
            });
        )*
    };
}

macro_rules! sets {
    ($ctx:expr, $n:expr, [$($k:ty),*] small [$($s:ty),*]) => {
        $(
            $ctx.cases(concat!("set of ", stringify!($k)), $n, |r, c| {
                heap::set::<OrdinalSet<$k>>(r, c, true);
                heap::set::<OrdinalArraySet<$k, { ordinal_array_set_s::<$k>() }>>(r, c, false);
            });
        )*
        $(
            $ctx.cases(concat!("small set of ", stringify!($s)), $n, |r, c| {
                heap::set::<OrdinalSet64<$s>>(r, c, false)
            });
        )*
    };
}

macro_rules! plains {
    ($ctx:expr, $n:expr, [$($k:ty),*]) => {
        $( $ctx.cases(concat!("values of ", stringify!($k)), $n, |r, c| {
            heap::plain::<$k>(r, c, stringify!($k))
        }); )*
    };
}

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(400, 8000);
    maps!(ctx, n, n / 2,
        [Key<0>, Key<1>, Key<3>, Key<64>, Key<65>, Key<300>, bool, u8, Color, Mixed, (bool, Option<bool>)]
        [u64, (), bool, Option<u8>, Wide]);
    maps!(ctx, n / 4, n / 20, [Key<5000>] [u64, bool]);
    maps!(ctx, n / 20, n / 50, [u16] [u64]);
    arrays!(ctx, n, [Key<0>, Key<1>, Key<3>, Key<64>, Key<65>, bool, u8, Color, Mixed] [u64, (), bool, Option<u8>, Wide]);
    sets!(ctx, n,
        [Key<0>, Key<1>, Key<2>, Key<63>, Key<64>, Key<65>, Key<127>, Key<128>, Key<129>, Key<1000>, Key<5000>, u8,
         Color, Mixed, bool, ()]
        small [Key<0>, Key<1>, Key<2>, Key<63>, Key<64>, Color, Mixed, bool, ()]);
    sets!(ctx, n / 10, [u16, Key<100000>] small []);
    plains!(ctx, n, [
        (), bool, u8, i8, u16, i16, u32, i32, char, std::cmp::Ordering, std::convert::Infallible,
        std::num::NonZeroU8, std::num::NonZeroI16, std::num::NonZeroU32, Option<u8>, Result<bool, u16>,
        [bool; 9], [Option<bool>; 3], [(); 4], [u8; 0], (bool, u8, Color), (u8, i8, bool, Option<Color>),
        Color, Mixed, either::Either<u8, [bool; 3]>, [[bool; 2]; 3], (Option<[Color; 4]>,)
    ]);
    ctx.finish();
}
