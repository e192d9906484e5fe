//! C16-C20: the Bitcoin relay and the security pallet
pub mod rt;
#[allow(dead_code)]
#[path = "../../h-bitcoin/src/model.rs"]
mod model;
mod forks;
mod inclusion;
mod payments;
mod headers;
mod clock;

fn main() {
    pbt::main(&[forks::PROP, inclusion::PROP, payments::PROP, headers::PROP, clock::PROP])
}
