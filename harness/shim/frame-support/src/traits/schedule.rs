use codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::DispatchError;

pub type Period<BlockNumber> = (BlockNumber, u32);
pub type Priority = u8;
pub const HIGHEST_PRIORITY: Priority = 0;
pub const HARD_DEADLINE: Priority = 63;
pub const LOWEST_PRIORITY: Priority = 255;

#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, TypeInfo, MaxEncodedLen)]
pub enum DispatchTime<BlockNumber> {
    At(BlockNumber),
    After(BlockNumber),
}

pub mod v3 {
    use super::*;
    use crate::traits::Bounded;
    pub type TaskName = [u8; 32];
    pub trait Anon<BlockNumber, Call, Origin> {}
    pub trait Named<BlockNumber, Call, Origin> {
        type Address: codec::Codec + MaxEncodedLen + Clone + Eq + codec::EncodeLike + core::fmt::Debug;
        fn schedule_named(
            id: TaskName,
            when: DispatchTime<BlockNumber>,
            maybe_periodic: Option<Period<BlockNumber>>,
            priority: Priority,
            origin: Origin,
            call: Bounded<Call>,
        ) -> Result<Self::Address, DispatchError>;
        fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
        fn reschedule_named(id: TaskName, when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>;
        fn next_dispatch_time(id: TaskName) -> Result<BlockNumber, DispatchError>;
    }
}
