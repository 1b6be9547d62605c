//! C09: total maps hold exactly one value per key, created and transformed key by key.
use harness::cat_total;
use harness::huge;
use harness::mon::Ctx;
use harness::w_total;

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(250, 12_000);
    let f = w_total::Focus::Contents;
    w_total::walk(&ctx, &cat_total::sizes(), f, n);
    w_total::walk(&ctx, &cat_total::values(), f, n);
    w_total::walk(&ctx, &cat_total::keys(), f, n);
    w_total::walk(&ctx, &cat_total::big(), f, ctx.n(8, 200));
    if !cfg!(miri) {
        huge::totals(&ctx, ctx.n(24, 400));
    }
    ctx.finish();
}
