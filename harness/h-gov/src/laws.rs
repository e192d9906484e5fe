//! The properties of governance and emission.
use pbt::{law, Prop};

pub const BASE: [&str; 1] = ["the pallets run on a shim of the FRAME storage, dispatch and token interfaces they use"];
const fn of(id: &'static str, rule: &'static str, laws: &'static [pbt::Law]) -> Prop {
    Prop { id, rule, assumptions: &BASE, laws, findings: &[] }
}
pub const PROPS: &[Prop] = &[
    of("C48", "two locks were running; a lock was changed or looked at again", &[law!("power", 4_000, 80_000, crate::esc::power), law!("stakes", 3_000, 60_000, crate::esc::stakes)]),
    of("C49", "funds that are locked, or too many, were refused", &[law!("locks", 5_000, 100_000, crate::esc::locks)]),
    Prop {
        id: "C50",
        rule: "a reward was paid out; the supply grew",
        assumptions: &BASE,
        laws: &[law!("annuity", 4_000, 80_000, crate::emit::annuity), law!("supply", 2_000, 40_000, crate::emit::supply)],
        findings: crate::emit::FINDINGS,
    },
    of("C51", "a reward was claimed", &[law!("farms", 4_000, 80_000, crate::farm::farms)]),
    of("C52", "a call was not let through; a pending release became current", &[law!("paused", 3_000, 60_000, crate::admin::paused), law!("clients", 1_500, 30_000, crate::admin::clients)]),
    of("C53", "a referendum was decided on votes", &[law!("histories", 4_000, 80_000, crate::demo::histories), law!("threshold", 10_000, 200_000, crate::demo::threshold)]),
    of("C56", "a candidate was removed at a session", &[law!("collators", 4_000, 80_000, crate::coll::collators)]),
    of("C65", "an open referendum was upgraded", &[law!("upgrade", 3_000, 60_000, crate::mig::upgrade)]),
];
