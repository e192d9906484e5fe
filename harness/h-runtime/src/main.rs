//! C58 to C62: the two runtimes, as they compose their pallets
pub mod runtime_common {
    include!(concat!(env!("OUT_DIR"), "/common.rs"));
    // the check of the slot is aura's
    impl<T: pallet_timestamp::Config, E> OnTimestampSet<T::Moment> for ConsensusOnTimestampSet<T, E> {
        fn on_timestamp_set(_: T::Moment) {}
    }
}
pub mod chain;
pub mod rt;
#[path = "."]
pub mod net {
    use primitives::{CurrencyId, CurrencyId::Token, DOT, IBTC, INTR, KBTC, KINT, KSM};
    #[path = "."]
    pub mod kintsugi {
        use super::*;
        pub use crate::rt::kintsugi as rt;
        pub const NATIVE: CurrencyId = Token(KINT);
        pub const WRAPPED: CurrencyId = Token(KBTC);
        pub const RELAY: CurrencyId = Token(KSM);
        /// planck of the relay chain in a satoshi
        pub const WRAPPED_PER: u128 = 1_500_000;
        pub const FEES_TO_AUTHOR: bool = false;
        #[path = "world.rs"]
        pub mod world;
        #[path = "emission.rs"]
        pub mod emission;
        #[path = "outside.rs"]
        pub mod outside;
        #[path = "reads.rs"]
        pub mod reads;
        #[path = "who.rs"]
        pub mod who;
        #[path = "shop.rs"]
        pub mod shop;
    }
    #[path = "."]
    pub mod interlay {
        use super::*;
        pub use crate::rt::interlay as rt;
        pub const NATIVE: CurrencyId = Token(INTR);
        pub const WRAPPED: CurrencyId = Token(IBTC);
        pub const RELAY: CurrencyId = Token(DOT);
        /// planck of the relay chain in a satoshi
        pub const WRAPPED_PER: u128 = 226_600;
        pub const FEES_TO_AUTHOR: bool = true;
        #[path = "world.rs"]
        pub mod world;
        #[path = "emission.rs"]
        pub mod emission;
        #[path = "outside.rs"]
        pub mod outside;
        #[path = "reads.rs"]
        pub mod reads;
        #[path = "who.rs"]
        pub mod who;
        #[path = "shop.rs"]
        pub mod shop;
    }
}
mod contract;
mod laws;

fn main() {
    pbt::main(laws::PROPS)
}
