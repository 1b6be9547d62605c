//! C08: map iterators visit each entry exactly once, in key order, from both ends.
use harness::cat_sparse;
use harness::cat_total;
use harness::mon::Ctx;
use harness::ordm;
use harness::w_map;
use harness::w_total;

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(120, 6_000);
    let f = w_map::Focus::Iterators;
    w_map::walk(&ctx, &cat_sparse::sizes(), f, n);
    w_map::walk(&ctx, &cat_sparse::values(), f, n);
    w_map::walk(&ctx, &cat_sparse::keys(), f, n);
    w_map::walk(&ctx, &cat_sparse::big(), f, ctx.n(8, 200));
    let f = w_total::Focus::Iterators;
    w_total::walk(&ctx, &cat_total::sizes(), f, n);
    w_total::walk(&ctx, &cat_total::values(), f, n);
    w_total::walk(&ctx, &cat_total::keys(), f, n);
    w_total::walk(&ctx, &cat_total::big(), f, ctx.n(8, 200));
    let n = ctx.n(60, 3_000);
    ordm::maps::<0>(&ctx, n / 10);
    ordm::maps::<1>(&ctx, n / 5);
    ordm::maps::<2>(&ctx, n);
    ordm::maps::<7>(&ctx, n);
    ordm::maps::<65>(&ctx, n / 2);
    ctx.finish();
}
