pub use sp_weights::*;

pub mod constants {
    pub use sp_weights::constants::*;
    crate::parameter_types! {
        pub const RocksDbWeight: sp_weights::RuntimeDbWeight = sp_weights::RuntimeDbWeight {
            read: 25_000 * WEIGHT_REF_TIME_PER_NANOS,
            write: 100_000 * WEIGHT_REF_TIME_PER_NANOS,
        };
        pub const ParityDbWeight: sp_weights::RuntimeDbWeight = sp_weights::RuntimeDbWeight {
            read: 8_000 * WEIGHT_REF_TIME_PER_NANOS,
            write: 50_000 * WEIGHT_REF_TIME_PER_NANOS,
        };
        pub const BlockExecutionWeight: sp_weights::Weight = sp_weights::Weight::from_parts(WEIGHT_REF_TIME_PER_NANOS.saturating_mul(5_000_000), 0);
        pub const ExtrinsicBaseWeight: sp_weights::Weight = sp_weights::Weight::from_parts(WEIGHT_REF_TIME_PER_NANOS.saturating_mul(125_000), 0);
    }
}
