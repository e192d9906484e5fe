//! The part of FRAME's support library that the pallets of /repo use, written anew for running them natively: see DESIGN.md.
#![allow(clippy::all)]
extern crate self as frame_support;

pub use codec;
pub use log;
pub use paste;
pub use scale_info;
pub use serde;
pub use sp_arithmetic;
pub use sp_core;
pub use sp_io;
pub use sp_runtime;
pub use sp_state_machine;
pub use sp_std;
pub use sp_weights;
pub use sp_tracing;

pub use frame_support_procedural::{
    construct_runtime, pallet, require_transactional, storage_alias, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound,
    PartialEqNoBound, RuntimeDebugNoBound,
};
pub use sp_core::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use sp_runtime::{bounded_btree_map, bounded_vec, print, ConsensusEngineId, RuntimeDebug};

pub mod dispatch;
pub mod hash;
pub mod migration;
pub mod storage;
pub mod traits;
pub mod weights;

pub use hash::*;
pub use traits::PalletId;

pub mod error {
    pub use sp_runtime::traits::{BadOrigin, LookupError};
}
pub mod unsigned {
    pub use sp_runtime::traits::ValidateUnsigned;
    pub use sp_runtime::transaction_validity::{
        InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction,
    };
}
pub mod inherent {
    pub use sp_std::prelude::*;
}

/// the instances of a pallet that can have several
pub mod instances {
    macro_rules! instances {
        ($($n:ident)*) => {$(
            #[derive(Clone, Copy, PartialEq, Eq, Debug, codec::Encode, codec::Decode, scale_info::TypeInfo, Default)]
            pub struct $n;
        )*};
    }
    instances!(Instance1 Instance2 Instance3 Instance4 Instance5 Instance6 Instance7 Instance8);
}

/// no value has this type
#[derive(codec::Encode, codec::Decode, Clone, PartialEq, Eq, Debug, scale_info::TypeInfo)]
pub enum Never {}

#[doc(hidden)]
pub fn opaque_type(name: &'static str, module: &'static str) -> scale_info::Type {
    scale_info::Type::builder()
        .path(scale_info::Path::new(name, module))
        .composite(scale_info::build::Fields::unit())
}

/// a type that can be an argument of a dispatchable
pub trait Parameter: codec::Codec + codec::EncodeLike + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo {}
impl<T: codec::Codec + codec::EncodeLike + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo> Parameter for T {}

#[macro_export]
macro_rules! ensure {
    ($x:expr, $y:expr $(,)?) => {{
        if !$x {
            $crate::fail!($y);
        }
    }};
}
#[macro_export]
macro_rules! fail {
    ($y:expr) => {{
        return Err($y.into());
    }};
}
#[macro_export]
macro_rules! runtime_print {
    ($($arg:tt)+) => {{ let _ = format!($($arg)+); }};
}
#[macro_export]
macro_rules! defensive {
    ($($arg:tt)*) => {{ debug_assert!(false, "a defensive failure") }};
}

#[macro_export]
macro_rules! assert_ok {
    ($x:expr $(,)?) => {{
        let is = $x;
        match is {
            Ok(_) => (),
            _ => assert!(false, "Expected Ok(_). Got {:#?}", is),
        }
    }};
    ($x:expr, $y:expr $(,)?) => {{
        assert_eq!($x, Ok($y));
    }};
}
#[macro_export]
macro_rules! assert_err {
    ($x:expr, $y:expr $(,)?) => {{
        assert_eq!($x, Err($y.into()));
    }};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
    ($x:expr, $y:expr $(,)?) => {{
        $crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y);
    }};
}
#[macro_export]
macro_rules! assert_noop {
    ($x:expr, $y:expr $(,)?) => {{
        let h = $crate::storage_root();
        $crate::assert_err!($x, $y);
        assert_eq!(h, $crate::storage_root(), "storage has been mutated");
    }};
}
#[macro_export]
macro_rules! assert_storage_noop {
    ($x:expr) => {{
        let h = $crate::storage_root();
        $x;
        assert_eq!(h, $crate::storage_root(), "storage has been mutated");
    }};
}
pub fn storage_root() -> Vec<u8> {
    sp_io::storage::root(sp_runtime::StateVersion::V1)
}

#[macro_export]
macro_rules! parameter_types {
    ($(#[$a:meta])* $vis:vis const $name:ident: $t:ty = $v:expr; $($rest:tt)*) => {
        $(#[$a])* $vis struct $name;
        #[allow(unused)]
        impl $name { pub const fn get() -> $t { $v } }
        impl<X: From<$t>> $crate::traits::Get<X> for $name { fn get() -> X { X::from(Self::get()) } }
        impl $crate::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
        $crate::parameter_types!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis storage $name:ident: $t:ty = $v:expr; $($rest:tt)*) => {
        $(#[$a])* $vis struct $name;
        #[allow(unused)]
        impl $name {
            pub fn key() -> [u8; 16] { $crate::sp_io::hashing::twox_128(concat!(":", stringify!($name), ":").as_bytes()) }
            pub fn set(v: &$t) { $crate::storage::unhashed::put(&Self::key(), v) }
            pub fn get() -> $t { $crate::storage::unhashed::get(&Self::key()).unwrap_or_else(|| $v) }
        }
        impl<X: From<$t>> $crate::traits::Get<X> for $name { fn get() -> X { X::from(Self::get()) } }
        impl $crate::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
        $crate::parameter_types!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $name:ident: $t:ty = $v:expr; $($rest:tt)*) => {
        $crate::paste::paste! {
            thread_local! { static [<__ $name:upper>]: std::cell::RefCell<$t> = std::cell::RefCell::new($v); }
            $(#[$a])* $vis struct $name;
            #[allow(unused)]
            impl $name {
                pub fn get() -> $t { [<__ $name:upper>].with(|v| v.borrow().clone()) }
                pub fn set(t: $t) { [<__ $name:upper>].with(|v| *v.borrow_mut() = t) }
            }
            impl<X: From<$t>> $crate::traits::Get<X> for $name { fn get() -> X { X::from(Self::get()) } }
            impl $crate::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
        }
        $crate::parameter_types!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis $name:ident: $t:ty = $v:expr; $($rest:tt)*) => {
        $(#[$a])* $vis struct $name;
        #[allow(unused)]
        impl $name { pub fn get() -> $t { $v } }
        impl<X: From<$t>> $crate::traits::Get<X> for $name { fn get() -> X { X::from(Self::get()) } }
        impl $crate::traits::TypedGet for $name { type Type = $t; fn get() -> $t { Self::get() } }
        $crate::parameter_types!($($rest)*);
    };
    () => {};
}

#[macro_export]
macro_rules! ord_parameter_types {
    ($(#[$a:meta])* $vis:vis const $name:ident: $t:ty = $v:expr; $($rest:tt)*) => {
        $crate::parameter_types!($(#[$a])* $vis const $name: $t = $v;);
        impl $crate::traits::SortedMembers<$t> for $name {
            fn contains(t: &$t) -> bool { &$v == t }
            fn sorted_members() -> Vec<$t> { vec![$v] }
        }
        impl $crate::traits::Contains<$t> for $name {
            fn contains(t: &$t) -> bool { &$v == t }
        }
        $crate::ord_parameter_types!($($rest)*);
    };
    () => {};
}

pub mod pallet_prelude {
    pub use crate::{
        dispatch::{
            DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, GetDispatchInfo, Parameter, Pays, PostDispatchInfo,
        },
        ensure,
        hash::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, Twox128, Twox256, Twox64Concat},
        storage::{
            bounded_vec::BoundedVec,
            types::{OptionQuery, StorageDoubleMap, StorageMap, StorageValue, ValueQuery},
            StorageList,
        },
        traits::{
            BuildGenesisConfig, ConstU32, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, PalletInfoAccess, StorageInfoTrait,
            StorageVersion, TypedGet,
        },
        CloneNoBound, DebugNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound,
    };
    pub use codec::{Decode, Encode, MaxEncodedLen};
    pub use core::marker::PhantomData;
    pub use scale_info::TypeInfo;
    pub use sp_runtime::{
        traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned},
        transaction_validity::{
            InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity,
            TransactionValidityError, UnknownTransaction, ValidTransaction,
        },
        RuntimeDebug, MAX_MODULE_ERROR_ENCODED_SIZE,
    };
    pub use sp_std::marker;
    pub use sp_weights::Weight;
}
