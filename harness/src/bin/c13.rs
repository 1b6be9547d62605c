//! C13: panicking callbacks leave containers consistent and leak or double-drop nothing.
use harness::fault::*;
use harness::mon::Ctx;
use harness::own;

fn main() {
    let ctx = Ctx::from_args();
    let n = ctx.n(600, 12_000);
    let masks = [KEY | CLONE | CALLBACK | DEBUG | ITER | DEFAULT, DROP];
    for (name, s) in own::all() {
        ctx.cases(name, n, |rng, case| {
            let k = own::enumerate(rng, case, s, &masks, if cfg!(miri) { 4 } else { 80 });
            if k > 0 {
                case.mark();
                ctx.bulk("injected panics", k, 0);
            }
        });
    }
    ctx.finish();
}
