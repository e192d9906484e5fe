pub use crate::{traits::UnfilteredDispatchable, Parameter};
pub use codec::{Codec, Decode, Encode, EncodeLike, HasCompact, Input, MaxEncodedLen, Output};
use scale_info::TypeInfo;
pub use sp_runtime::{
    traits::{DispatchInfoOf, Dispatchable, PostDispatchInfoOf},
    DispatchError, DispatchResult, RuntimeDebug,
};
pub use sp_weights::Weight;

pub type DispatchResultWithPostInfo = sp_runtime::DispatchResultWithInfo<PostDispatchInfo>;
pub type DispatchErrorWithPostInfo = sp_runtime::DispatchErrorWithPostInfo<PostDispatchInfo>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum Pays {
    Yes,
    No,
}
impl Default for Pays {
    fn default() -> Self {
        Self::Yes
    }
}
impl From<Pays> for PostDispatchInfo {
    fn from(pays_fee: Pays) -> Self {
        Self { actual_weight: None, pays_fee }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum DispatchClass {
    Normal,
    Operational,
    Mandatory,
}
impl Default for DispatchClass {
    fn default() -> Self {
        Self::Normal
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct DispatchInfo {
    pub weight: Weight,
    pub class: DispatchClass,
    pub pays_fee: Pays,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, Default)]
pub struct PostDispatchInfo {
    pub actual_weight: Option<Weight>,
    pub pays_fee: Pays,
}
impl PostDispatchInfo {
    pub fn calc_actual_weight(&self, info: &DispatchInfo) -> Weight {
        match self.actual_weight {
            Some(w) => w.min(info.weight),
            None => info.weight,
        }
    }
    pub fn calc_unspent(&self, info: &DispatchInfo) -> Weight {
        info.weight - self.calc_actual_weight(info)
    }
    pub fn pays_fee(&self, info: &DispatchInfo) -> Pays {
        if info.pays_fee == Pays::No || self.pays_fee == Pays::No {
            Pays::No
        } else {
            Pays::Yes
        }
    }
}
impl From<()> for PostDispatchInfo {
    fn from(_: ()) -> Self {
        Self { actual_weight: None, pays_fee: Default::default() }
    }
}
impl sp_runtime::traits::Printable for PostDispatchInfo {
    fn print(&self) {}
}
impl From<Option<Weight>> for PostDispatchInfo {
    fn from(actual_weight: Option<Weight>) -> Self {
        Self { actual_weight, pays_fee: Default::default() }
    }
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
    fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
        Self { actual_weight, pays_fee }
    }
}

pub trait GetDispatchInfo {
    fn get_dispatch_info(&self) -> DispatchInfo;
}

/// what a weight attribute may give
pub trait IntoDispatchInfo {
    fn into_info(self) -> DispatchInfo;
}
impl IntoDispatchInfo for Weight {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { weight: self, ..Default::default() }
    }
}
impl IntoDispatchInfo for u64 {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() }
    }
}
impl IntoDispatchInfo for i32 {
    fn into_info(self) -> DispatchInfo {
        (self as u64).into_info()
    }
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, DispatchClass) {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { class: self.1, ..self.0.into_info() }
    }
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, Pays) {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { pays_fee: self.1, ..self.0.into_info() }
    }
}
impl<W: IntoDispatchInfo> IntoDispatchInfo for (W, DispatchClass, Pays) {
    fn into_info(self) -> DispatchInfo {
        DispatchInfo { class: self.1, pays_fee: self.2, ..self.0.into_info() }
    }
}

/// makes a result that tells the weight
pub trait WithPostDispatchInfo {
    fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
    fn with_weight(self, actual_weight: Weight) -> DispatchErrorWithPostInfo {
        DispatchErrorWithPostInfo {
            post_info: PostDispatchInfo { actual_weight: Some(actual_weight), pays_fee: Default::default() },
            error: self.into(),
        }
    }
}
