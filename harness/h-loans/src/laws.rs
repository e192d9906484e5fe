//! The properties of the lending market.
use crate::rt::*;
use crate::run::*;
use crate::world::*;
use pbt::{check, fail, law, Prop, Src, R};

pub struct Step<'a> {
    pub pre: &'a Snap,
    pub post: &'a Snap,
    pub op: &'a Op,
    pub ok: bool,
    pub want: &'a Want,
}
type Each<'a> = dyn FnMut(&mut Src, &Step) -> R + 'a;

/// a history; `each` looks at every call
pub fn drive(s: &mut Src, mix: Mix, each: &mut Each) -> R {
    drive_by(s, 8, &|n| if n <= 6 { SUPPLY } else if n <= 10 { LEVER } else { mix }, each)
}
/// the calls of each step are chosen with the weights `mix` gives it
pub fn drive_by(s: &mut Src, least: usize, mix: &dyn Fn(usize) -> Mix, each: &mut Each) -> R {
    let c = setup(s);
    open_chain(&c, || {
        begin(&c)?;
        let mut pre = Snap::read(&c.rates);
        let mut n = 0;
        s.steps(least, 60, |s| {
            n += 1;
            let op = gen(s, &c, &pre, &mix(n));
            let root = storage_root();
            let want = want(&pre, &op);
            let res = pbt::guarded(|| exec(&op))?;
            s.note(|| format!("{op:?} -> {res:?}"));
            if std::env::var("WHY").is_ok() {
                if let (9 | 3, Want::Refused(w)) = (op.kind(), &want) {
                    eprintln!("TALLY {} {w}", op.name());
                }
            }
            if res.is_ok() {
                s.label(op.name());
            } else {
                check!(storage_root() == root, "{op:?} was refused ({res:?}) and yet changed something");
            }
            let post = Snap::read(&rates_after(&op, &pre));
            each(s, &Step { pre: &pre, post: &post, op: &op, ok: res.is_ok(), want: &want })?;
            pre = post;
            Ok(())
        })
    })
}
fn follows(s: &mut Src, mine: &[usize], mix: Mix) -> R {
    drive(s, mix, &mut |s, st| {
        if !mine.contains(&st.op.kind()) {
            return Ok(());
        }
        match st.want {
            Want::Open => (),
            Want::Refused(why) => check!(!st.ok, "{:?} must be refused ({why})", st.op),
            Want::Done(w) => {
                check!(st.ok, "{:?} was refused", st.op);
                if let Some(d) = diff(st.post, w) {
                    fail!("after {:?}: {d}", st.op)
                }
            }
        }
        if st.ok {
            s.nontrivial()
        }
        Ok(())
    })
}
fn lending(s: &mut Src) -> R {
    follows(s, &[0, 1, 2, 6, 7, 8, 10, 11, 12], PLAIN)
}
fn borrowing(s: &mut Src) -> R {
    follows(s, &[3, 4, 5], PLAIN)
}
fn liquidation(s: &mut Src) -> R {
    follows(s, &[9], SHORT)
}

pub const BASE: [&str; 2] = [
    "the pallets run on a shim of the FRAME storage, dispatch and token interfaces they use",
    "amounts below 1e16 underlying, prices between 0.001 and 10000 units per unit of the reference, no dust of existential deposits",
];
const fn of(id: &'static str, rule: &'static str, laws: &'static [pbt::Law]) -> Prop {
    Prop { id, rule, assumptions: &BASE, laws, findings: &[] }
}
pub const PROPS: &[Prop] = &[
    of("C33", "a call that supplies, redeems, moves or pledges succeeded and was compared with the reference", &[law!("lending", 3_000, 60_000, lending)]),
    of("C34", "a borrow or repayment succeeded and was compared with the reference; an account in debt was asked about", &[law!("borrowing", 3_000, 60_000, borrowing), law!("queries", 1_500, 40_000, crate::safety::queries)]),
    of("C35", "a liquidation succeeded and was compared with the reference", &[law!("liquidation", 6_000, 120_000, liquidation)]),
    of("C36", "interest grew a debt; a rate model was accepted", &[law!("interest", 2_000, 40_000, crate::interest::interest), law!("curve", 20_000, 1_000_000, crate::interest::curve)]),
    of("C37", "someone borrowed, took collateral away or was liquidated", &[law!("safety", 4_000, 80_000, crate::safety::safety)]),
    of("C38", "someone claimed a reward that was due; in the second law after a liquidation it had part in", &[law!("farming", 2_000, 40_000, crate::farming::farming), law!("liquidated", 4_000, 80_000, crate::farming::liquidated)]),
    of("C39", "a call that creates or changes a market succeeded", &[law!("markets", 6_000, 200_000, crate::admin::markets)]),
];
