//! C10: sets behave as a mathematical set for every element type size.
use harness::cat_set;
use harness::huge;
use harness::mon::Ctx;
use harness::w_set::*;

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(250, 12_000);
    walk_histories(&ctx, &cat_set::up_to_64(), n);
    walk_histories(&ctx, &cat_set::over_64(), n);
    walk_histories(&ctx, &cat_set::big(), ctx.n(16, 400));
    if !cfg!(miri) {
        huge::sets(&ctx, ctx.n(64, 1_000));
    }
    ctx.finish();
}
