//! C11: set iterators yield exactly the members, ascending, from both ends.
use harness::cat_set;
use harness::mon::Ctx;
use harness::ordm;
use harness::w_set::*;

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(800, 40_000);
    walk_iterators(&ctx, &cat_set::up_to_64(), n);
    walk_iterators(&ctx, &cat_set::over_64(), n);
    walk_iterators(&ctx, &cat_set::big(), ctx.n(16, 400));
    let n = ctx.n(150, 8_000);
    ordm::sets::<0>(&ctx, n / 10);
    ordm::sets::<1>(&ctx, n / 5);
    ordm::sets::<7>(&ctx, n);
    ordm::sets::<64>(&ctx, n);
    ordm::sets::<65>(&ctx, n / 2);
    ordm::sets::<200>(&ctx, n / 2);
    ordm::sets64::<0>(&ctx, n / 10);
    ordm::sets64::<1>(&ctx, n / 5);
    ordm::sets64::<7>(&ctx, n);
    ordm::sets64::<64>(&ctx, n);
    ctx.finish();
}
