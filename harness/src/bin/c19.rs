//! C19: clones are equal and independent; Debug and equality reflect contents.
use harness::forks;
use harness::forks::Eq64;
use harness::forks::Record;
use harness::keys::Color;
use harness::keys::Key;
use harness::keys::Mixed;
use harness::keys::OKey;
use harness::maps::size;
use harness::mon::Ctx;
use ordinal_map::map::total::OrdinalTotalArrayMap;
use ordinal_map::map::total::OrdinalTotalMap;
use ordinal_map::map::OrdinalArrayMap;
use ordinal_map::map::OrdinalMap;
use ordinal_map::set::ordinal_array_set_s;
use ordinal_map::set::OrdinalArraySet;
use ordinal_map::set::OrdinalSet;

macro_rules! maps {
    ($ctx:expr, $n:expr, $(($k:ty, $v:ty)),* $(,)?) => {
        $(
            let name = concat!(stringify!($k), " to ", stringify!($v));
            $ctx.cases(&format!("heap map, {name}"), $n, forks::sparse::<OrdinalMap<$k, $v>>);
            $ctx.cases(&format!("array map, {name}"), $n, forks::sparse::<OrdinalArrayMap<$k, $v, { size::<$k>() }>>);
            $ctx.cases(&format!("heap total map, {name}"), $n, forks::total::<OrdinalTotalMap<$k, $v>>);
            $ctx.cases(&format!("array total map, {name}"), $n, |r, c| {
                forks::total::<OrdinalTotalArrayMap<$k, $v, { size::<$k>() }>>(r, c);
                forks::views::<$k, $v, { size::<$k>() }>(r, c);
            });
        )*
    };
}

macro_rules! sets {
    ($ctx:expr, $n:expr, [$($k:ty),* $(,)?] small [$($s:ty),* $(,)?]) => {
        $(
            $ctx.cases(concat!("set of ", stringify!($k)), $n, |r, c| {
                forks::set::<OrdinalSet<$k>>(r, c);
                forks::set::<OrdinalArraySet<$k, { ordinal_array_set_s::<$k>() }>>(r, c);
            });
            $ctx.cases(concat!("keys of ", stringify!($k)), $n, |r, c| {
                forks::shown_keys::<$k, { size::<$k>() }>(r, c)
            });
        )*
        $( $ctx.cases(concat!("single-word set of ", stringify!($s)), $n, forks::set::<Eq64<$s>>); )*
    };
}

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(600, 20_000);
    maps!(ctx, n,
        (Key<0>, u64), (Key<1>, u64), (Key<2>, u64), (Key<5>, u64), (Key<9>, f64), (Key<9>, ()), (Key<7>, String),
        (Key<5>, Option<Vec<(u8, bool)>>), (Key<5>, Record), (Color, u64), (Color, Record), (Mixed, String), (bool, u64),
        (Option<bool>, Record), ((bool, Option<bool>), u64), (OKey<6>, String),
    );
    maps!(ctx, n / 8, (Key<65>, u64), (u8, u64));
    sets!(ctx, n,
        [Key<0>, Key<1>, Key<2>, Key<63>, Key<64>, Key<65>, Key<129>, Key<300>, Color, Mixed, bool, (), u8, OKey<70>]
        small [Key<0>, Key<1>, Key<2>, Key<31>, Key<32>, Key<33>, Key<63>, Key<64>, Color, bool, ()]);
    ctx.finish();
}
