//! The properties of the exchange.
use pbt::{law, Prop};

pub const BASE: [&str; 1] = ["the pallets run on a shim of the FRAME storage, dispatch and token interfaces they use"];
const fn of(id: &'static str, rule: &'static str, laws: &'static [pbt::Law]) -> Prop {
    Prop { id, rule, assumptions: &BASE, laws, findings: &[] }
}
pub const PROPS: &[Prop] = &[
    of("C40", "a swap went through; a path gives something", &[law!("swaps", 4_000, 80_000, crate::pairs::swaps), law!("quotes", 2_000, 40_000, crate::pairs::quotes)]),
    of("C41", "liquidity was added or removed and compared with the reference; the supply of shares changed", &[law!("shares", 4_000, 80_000, crate::pairs::shares), law!("worth", 2_000, 40_000, crate::pairs::worth), law!("told", 1_500, 30_000, crate::pairs::told)]),
    Prop {
        id: "C42",
        rule: "someone contributed, claimed or was refunded; someone could claim or have it back",
        assumptions: &BASE,
        laws: &[law!("exact", 4_000, 80_000, crate::boot::exact), law!("solvent", 2_000, 40_000, crate::boot::solvent), law!("announced", 1_000, 5_000, crate::boot::announced)],
        findings: crate::boot::FINDINGS,
    },
    of("C43", "a swap went through and was compared with the curve", &[law!("swaps", 1_500, 30_000, crate::stable::swaps), law!("quotes", 800, 16_000, crate::stable::quotes)]),
    of("C44", "shares were minted or burned and compared with the curve", &[law!("liquidity", 1_500, 30_000, crate::stable::liquidity), law!("worth", 1_000, 20_000, crate::stable::worth)]),
    of("C45", "a call on two pools went through and was compared with its parts", &[law!("parts", 1_500, 30_000, crate::stable::compositions), law!("under_quotes", 800, 16_000, crate::stable::under_quotes)]),
    of("C46", "a parameter was changed, or a pool was created", &[law!("params", 2_000, 40_000, crate::admin::params), law!("creation", 2_000, 40_000, crate::admin::creation)]),
    of("C47", "a route went through and was compared with its hops", &[law!("routes", 1_000, 20_000, crate::router::routes)]),
    of("C57", "a fee was paid by a swap", &[law!("fees", 3_000, 60_000, crate::fees::fees)]),
];
