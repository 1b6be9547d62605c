//! C12: every value put into the library is dropped exactly once.
use harness::alloc;
use harness::check_eq;
use harness::mon;
use harness::mon::Case;
use harness::mon::Ctx;
use harness::own;
use harness::rng::Rng;
use harness::tracked;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// The same execution again and again: by the third time the harness has all the
/// memory it wants, so what stays allocated was leaked by the library.
fn thrice(rng: &mut Rng, case: &mut Case, f: impl Fn(&mut Rng, &mut Case)) {
    let seed = rng.u64();
    for round in 0..3 {
        let before = alloc::counts();
        f(&mut Rng::new(seed), case);
        tracked::reset();
        let after = alloc::counts();
        if round == 2 {
            check_eq!(
                (after.live_blocks - before.live_blocks, after.live_bytes - before.live_bytes),
                (0, 0),
                "heap blocks and bytes left behind"
            );
            case.add("heap blocks allocated and freed", after.frees - before.frees);
        }
    }
}

fn main() {
    let ctx = Ctx::from_args();
    for (name, h) in own::histories() {
        ctx.cases(&format!("history of {name}"), ctx.n(1500, 60_000), |rng, case| {
            if mon::small() {
                h(rng, case)
            } else {
                thrice(rng, case, h)
            }
        });
    }
    let n = ctx.n(1200, 40_000);
    for (name, s) in own::all() {
        ctx.cases(name, n, |rng, case| {
            if mon::small() {
                s(rng, case, &mut own::Faults::none())
            } else {
                thrice(rng, case, |r, c| s(r, c, &mut own::Faults::none()))
            }
        });
    }
    ctx.finish();
}
