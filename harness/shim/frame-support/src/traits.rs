pub mod currency;
pub mod hooks;
pub mod schedule;
pub mod tokens;

pub use currency::*;
pub use hooks::*;
pub use sp_core::bounded::{Get as _, TypedGet as _};
pub use sp_core::{Get, GetDefault, TypedGet};
pub use sp_core::{
    ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8,
};
pub use tokens::{fungible, BalanceStatus, ExistenceRequirement, WithdrawReasons};

use codec::{Decode, Encode, MaxEncodedLen};
use core::marker::PhantomData;
use scale_info::TypeInfo;
use sp_runtime::{traits::BadOrigin, DispatchError};

/// an account made of eight bytes
#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, TypeInfo, Debug)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::TypeId for PalletId {
    const TYPE_ID: [u8; 4] = *b"modl";
}

pub trait BuildGenesisConfig: Default {
    fn build(&self);
}
impl BuildGenesisConfig for () {
    fn build(&self) {}
}

pub trait StorageInstance {
    fn pallet_prefix() -> &'static str;
    const STORAGE_PREFIX: &'static str;
}
pub trait StorageInfoTrait {}

pub trait PalletInfo {
    fn index<P: 'static>() -> Option<usize>;
    fn name<P: 'static>() -> Option<&'static str>;
}
pub trait PalletInfoAccess {
    fn index() -> usize;
    fn name() -> &'static str;
}

/// the version of a pallet's storage
#[derive(Debug, Eq, PartialEq, Encode, Decode, Ord, Clone, Copy, PartialOrd, Default)]
pub struct StorageVersion(u16);
impl StorageVersion {
    pub const fn new(v: u16) -> Self {
        Self(v)
    }
    fn key<P: PalletInfoAccess>() -> [u8; 32] {
        crate::storage::storage_prefix(P::name().as_bytes(), b":__STORAGE_VERSION__:")
    }
    pub fn put<P: PalletInfoAccess>(&self) {
        crate::storage::unhashed::put(&Self::key::<P>(), self)
    }
    pub fn get<P: PalletInfoAccess>() -> Self {
        crate::storage::unhashed::get_or_default(&Self::key::<P>())
    }
}
impl PartialEq<u16> for StorageVersion {
    fn eq(&self, o: &u16) -> bool {
        self.0 == *o
    }
}
impl PartialOrd<u16> for StorageVersion {
    fn partial_cmp(&self, o: &u16) -> Option<core::cmp::Ordering> {
        self.0.partial_cmp(o)
    }
}
pub trait GetStorageVersion {
    fn current_storage_version() -> StorageVersion;
    fn on_chain_storage_version() -> StorageVersion;
}

pub trait Callable<T> {
    type RuntimeCall;
}
pub trait UnfilteredDispatchable {
    type RuntimeOrigin;
    fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> crate::dispatch::DispatchResultWithPostInfo;
}
#[derive(Clone, Eq, PartialEq, Default, Debug)]
pub struct CallMetadata {
    pub function_name: &'static str,
    pub pallet_name: &'static str,
}
pub trait GetCallName {
    fn get_call_names() -> &'static [&'static str];
    fn get_call_name(&self) -> &'static str;
}
pub trait GetCallMetadata {
    fn get_module_names() -> &'static [&'static str];
    fn get_call_names(module: &str) -> &'static [&'static str];
    fn get_call_metadata(&self) -> CallMetadata;
}
pub trait IsSubType<T> {
    fn is_sub_type(&self) -> Option<&T>;
}
pub trait IsType<T>: Into<T> + From<T> {
    fn from_ref(t: &T) -> &Self;
    fn into_ref(&self) -> &T;
}
impl<T> IsType<T> for T {
    fn from_ref(t: &T) -> &Self {
        t
    }
    fn into_ref(&self) -> &T {
        self
    }
}

// ---- membership

pub trait Contains<T> {
    fn contains(t: &T) -> bool;
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
    fn contains(_: &T) -> bool {
        true
    }
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
    fn contains(_: &T) -> bool {
        false
    }
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
    fn contains(t: &T) -> bool {
        A::contains(t) && B::contains(t)
    }
}
pub struct EverythingBut<A>(PhantomData<A>);
impl<T, A: Contains<T>> Contains<T> for EverythingBut<A> {
    fn contains(t: &T) -> bool {
        !A::contains(t)
    }
}
impl<T> Contains<T> for () {
    fn contains(_: &T) -> bool {
        false
    }
}
pub trait SortedMembers<T: Ord> {
    fn contains(t: &T) -> bool {
        Self::sorted_members().binary_search(t).is_ok()
    }
    fn sorted_members() -> Vec<T>;
    fn count() -> usize {
        Self::sorted_members().len()
    }
}
pub trait InstanceFilter<T>: Sized + Send + Sync {
    fn filter(&self, _: &T) -> bool;
    fn is_superset(&self, _o: &Self) -> bool {
        false
    }
}
pub trait TryDrop: Sized {
    fn try_drop(self) -> Result<(), Self>;
}
impl TryDrop for () {
    fn try_drop(self) -> Result<(), Self> {
        Ok(())
    }
}
pub trait SameTrait {}
pub enum SameOrOther<A, B> {
    None,
    Same(A),
    Other(B),
}
impl<A, B> SameOrOther<A, B> {
    pub fn drop_same(self) -> Option<B> {
        match self {
            SameOrOther::Other(b) => Some(b),
            _ => None,
        }
    }
    pub fn same(self) -> Result<A, B>
    where
        A: Default,
    {
        match self {
            SameOrOther::Same(a) => Ok(a),
            SameOrOther::None => Ok(A::default()),
            SameOrOther::Other(b) => Err(b),
        }
    }
}

// ---- origins

pub trait OriginTrait: Sized {
    type Call;
    type PalletsOrigin;
    type AccountId;
    fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
    fn reset_filter(&mut self);
    fn set_caller_from(&mut self, other: impl Into<Self>);
    fn filter_call(&self, call: &Self::Call) -> bool;
    fn caller(&self) -> &Self::PalletsOrigin;
    fn into_caller(self) -> Self::PalletsOrigin;
    fn none() -> Self;
    fn root() -> Self;
    fn signed(by: Self::AccountId) -> Self;
    fn as_signed(self) -> Option<Self::AccountId>;
}
pub trait EnsureOrigin<OuterOrigin> {
    type Success;
    fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
        Self::try_origin(o).map_err(|_| BadOrigin)
    }
    fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub struct NeverEnsureOrigin<Success>(PhantomData<Success>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
    type Success = S;
    fn try_origin(o: O) -> Result<S, O> {
        Err(o)
    }
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
    type Success = sp_runtime::Either<L::Success, R::Success>;
    fn try_origin(o: O) -> Result<Self::Success, O> {
        L::try_origin(o).map_or_else(|o| R::try_origin(o).map(sp_runtime::Either::Right), |o| Ok(sp_runtime::Either::Left(o)))
    }
}
pub type EitherOf<L, R> = EitherOfDiverse<L, R>;
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
pub trait PrivilegeCmp<Origin> {
    fn cmp_privilege(left: &Origin, right: &Origin) -> Option<core::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<Origin: PartialEq> PrivilegeCmp<Origin> for EqualPrivilegeOnly {
    fn cmp_privilege(left: &Origin, right: &Origin) -> Option<core::cmp::Ordering> {
        (left == right).then(|| core::cmp::Ordering::Equal)
    }
}

// ---- time and validators

pub trait Time {
    type Moment: sp_runtime::traits::AtLeast32Bit + crate::Parameter + Default + Copy + MaxEncodedLen;
    fn now() -> Self::Moment;
}
pub trait UnixTime {
    fn now() -> core::time::Duration;
}
pub trait FindAuthor<Author> {
    fn find_author<'a, I>(digests: I) -> Option<Author>
    where
        I: 'a + IntoIterator<Item = (crate::ConsensusEngineId, &'a [u8])>;
}
impl<A> FindAuthor<A> for () {
    fn find_author<'a, I>(_: I) -> Option<A>
    where
        I: 'a + IntoIterator<Item = (crate::ConsensusEngineId, &'a [u8])>,
    {
        None
    }
}
pub trait ValidatorRegistration<ValidatorId> {
    fn is_registered(id: &ValidatorId) -> bool;
}
pub trait EstimateNextSessionRotation<BlockNumber> {
    fn average_session_length() -> BlockNumber;
}
pub trait OneSessionHandler<ValidatorId> {}

// ---- accounts

pub trait OnNewAccount<AccountId> {
    fn on_new_account(who: &AccountId);
}
pub trait OnKilledAccount<AccountId> {
    fn on_killed_account(who: &AccountId);
}
impl<A> OnNewAccount<A> for () {
    fn on_new_account(_: &A) {}
}
impl<A> OnKilledAccount<A> for () {
    fn on_killed_account(_: &A) {}
}
pub trait HandleLifetime<T> {
    fn created(_t: &T) -> Result<(), DispatchError> {
        Ok(())
    }
    fn killed(_t: &T) -> Result<(), DispatchError> {
        Ok(())
    }
}
impl<T> HandleLifetime<T> for () {}
/// a value stored with each account
pub trait StoredMap<K, T: Default> {
    fn get(k: &K) -> T;
    fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
    fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
        Self::mutate_exists(k, |maybe| match maybe {
            Some(v) => f(v),
            x @ None => {
                let mut v = Default::default();
                let r = f(&mut v);
                *x = Some(v);
                r
            }
        })
    }
    fn mutate_exists<R>(k: &K, f: impl FnOnce(&mut Option<T>) -> R) -> Result<R, DispatchError> {
        Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> { Ok(f(x)) })
    }
    fn insert(k: &K, t: T) -> Result<(), DispatchError> {
        Self::mutate(k, |i| *i = t)
    }
    fn remove(k: &K) -> Result<(), DispatchError> {
        Self::mutate_exists(k, |x| *x = None)
    }
}

// ---- preimages, with the whole value inline: the mini preimage store has no other form

/// a value, or where to find it
#[derive(Encode, Decode, MaxEncodedLen, Clone, Eq, PartialEq, TypeInfo, Debug)]
pub enum Bounded<T> {
    Legacy { hash: sp_core::H256, dummy: PhantomData<T> },
    Inline(sp_core::bounded::BoundedVec<u8, ConstU32<128>>),
    Lookup { hash: sp_core::H256, len: u32 },
}
impl<T> Bounded<T> {
    pub fn hash(&self) -> sp_core::H256 {
        match self {
            Bounded::Legacy { hash, .. } | Bounded::Lookup { hash, .. } => *hash,
            Bounded::Inline(b) => sp_io::hashing::blake2_256(b).into(),
        }
    }
    pub fn from_legacy_hash(hash: impl Into<sp_core::H256>) -> Self {
        Bounded::Legacy { hash: hash.into(), dummy: PhantomData }
    }
    pub fn len(&self) -> Option<u32> {
        match self {
            Bounded::Legacy { .. } => None,
            Bounded::Inline(b) => Some(b.len() as u32),
            Bounded::Lookup { len, .. } => Some(*len),
        }
    }
    pub fn lookup_needed(&self) -> bool {
        !matches!(self, Bounded::Inline(_))
    }
}
pub trait QueryPreimage {
    fn len(hash: &sp_core::H256) -> Option<u32>;
    fn fetch(hash: &sp_core::H256, len: Option<u32>) -> Result<Vec<u8>, DispatchError>;
    fn is_requested(hash: &sp_core::H256) -> bool;
    fn request(hash: &sp_core::H256);
    fn unrequest(hash: &sp_core::H256);
    fn hold<T>(b: &Bounded<T>) {
        match b {
            Bounded::Inline(_) => {}
            _ => Self::request(&b.hash()),
        }
    }
    fn drop<T>(b: &Bounded<T>) {
        match b {
            Bounded::Inline(_) => {}
            _ => Self::unrequest(&b.hash()),
        }
    }
    fn have<T>(b: &Bounded<T>) -> bool {
        match b {
            Bounded::Inline(_) => true,
            _ => Self::len(&b.hash()).is_some(),
        }
    }
    fn peek<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        let (bytes, len) = match b {
            Bounded::Inline(v) => (v.to_vec(), None),
            Bounded::Legacy { hash, .. } => {
                let v = Self::fetch(hash, None)?;
                let l = v.len() as u32;
                (v, Some(l))
            }
            Bounded::Lookup { hash, len } => (Self::fetch(hash, Some(*len))?, Some(*len)),
        };
        T::decode(&mut &bytes[..]).map(|t| (t, len)).map_err(|_| DispatchError::Corruption)
    }
    fn realize<T: Decode>(b: &Bounded<T>) -> Result<(T, Option<u32>), DispatchError> {
        let r = Self::peek(b)?;
        Self::drop(b);
        Ok(r)
    }
}
pub trait StorePreimage: QueryPreimage {
    const MAX_LENGTH: usize;
    fn note(bytes: Vec<u8>) -> Result<sp_core::H256, DispatchError>;
    fn unnote(hash: &sp_core::H256) {
        Self::unrequest(hash)
    }
    fn bound<T: Encode>(t: T) -> Result<Bounded<T>, DispatchError> {
        let data = t.encode();
        let len = data.len() as u32;
        Ok(match sp_core::bounded::BoundedVec::try_from(data) {
            Ok(b) => Bounded::Inline(b),
            Err(unbounded) => Bounded::Lookup { hash: Self::note(unbounded.into())?, len },
        })
    }
}
