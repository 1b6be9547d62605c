//! C07: entry handles reflect and modify exactly their own key.
use harness::cat_sparse;
use harness::huge;
use harness::mon::Ctx;
use harness::w_map::*;

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(300, 15_000);
    walk(&ctx, &cat_sparse::sizes(), Focus::Entries, n);
    walk(&ctx, &cat_sparse::values(), Focus::Entries, n);
    walk(&ctx, &cat_sparse::keys(), Focus::Entries, n);
    walk(&ctx, &cat_sparse::big(), Focus::Entries, ctx.n(16, 400));
    if !cfg!(miri) {
        huge::sparses(&ctx, ctx.n(48, 800));
    }
    ctx.finish();
}
