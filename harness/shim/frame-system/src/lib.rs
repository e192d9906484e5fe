//! The part of FRAME's system pallet that the pallets of /repo use: see DESIGN.md.
#![allow(clippy::all)]
extern crate self as frame_system;

use codec::{Decode, Encode, FullCodec, MaxEncodedLen};
use frame_support::{
    dispatch::{DispatchResultWithPostInfo, PostDispatchInfo},
    traits::{Contains, EnsureOrigin, Get, HandleLifetime, OnKilledAccount, OnNewAccount, OriginTrait, SortedMembers, StoredMap},
    Parameter,
};
use scale_info::TypeInfo;
use sp_runtime::{
    traits::{AtLeast32Bit, BadOrigin, Bounded, Dispatchable, Hash, Header as HeaderT, MaybeDisplay, MaybeSerializeDeserialize, Member, One, Saturating, SimpleBitOps, StaticLookup, Zero},
    DispatchError,
};
use std::{cell::RefCell, fmt::Debug, marker::PhantomData, rc::Rc};

pub mod limits;
pub mod mocking;
pub mod offchain;

/// how a block tells its header type
pub trait HeaderProvider {
    type HeaderT: HeaderT;
    type Number: Parameter
        + Member
        + MaybeSerializeDeserialize
        + std::str::FromStr
        + Debug
        + std::hash::Hash
        + Copy
        + MaybeDisplay
        + sp_runtime::traits::AtLeast32BitUnsigned
        + Default
        + MaxEncodedLen
        + FullCodec
        + Bounded;
}

pub mod pallet_prelude {
    pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
    pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
    pub type HeaderFor<T> = <<T as crate::Config>::Block as crate::HeaderProvider>::HeaderT;
    pub type BlockNumberFor<T> = <<T as crate::Config>::Block as crate::HeaderProvider>::Number;
}
use pallet_prelude::{BlockNumberFor, HeaderFor};

#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub enum RawOrigin<AccountId> {
    Root,
    Signed(AccountId),
    None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
    fn from(s: Option<A>) -> Self {
        match s {
            Some(who) => RawOrigin::Signed(who),
            None => RawOrigin::None,
        }
    }
}
impl<A> RawOrigin<A> {
    pub fn as_signed(&self) -> Option<&A> {
        match self {
            RawOrigin::Signed(x) => Some(x),
            _ => None,
        }
    }
}

/// the caller of any runtime made by `construct_runtime`
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
#[allow(non_camel_case_types)]
pub enum MiniCaller<AccountId> {
    system(RawOrigin<AccountId>),
}
impl<A> From<RawOrigin<A>> for MiniCaller<A> {
    fn from(r: RawOrigin<A>) -> Self {
        MiniCaller::system(r)
    }
}
impl<A> TryFrom<MiniCaller<A>> for RawOrigin<A> {
    type Error = MiniCaller<A>;
    fn try_from(c: MiniCaller<A>) -> Result<Self, MiniCaller<A>> {
        match c {
            MiniCaller::system(r) => Ok(r),
        }
    }
}

/// the origin of any runtime made by `construct_runtime`
pub struct MiniOrigin<AccountId, Call, Runtime> {
    caller: MiniCaller<AccountId>,
    filter: Rc<dyn Fn(&Call) -> bool>,
    runtime: PhantomData<Runtime>,
}
impl<A: Clone, C, R> Clone for MiniOrigin<A, C, R> {
    fn clone(&self) -> Self {
        Self { caller: self.caller.clone(), filter: self.filter.clone(), runtime: PhantomData }
    }
}
impl<A: Debug, C, R> Debug for MiniOrigin<A, C, R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.caller)
    }
}
impl<A, C: 'static, R: Config<RuntimeCall = C>> MiniOrigin<A, C, R> {
    fn of(r: RawOrigin<A>) -> Self {
        let mut o = Self { caller: MiniCaller::system(r), filter: Rc::new(|_| true), runtime: PhantomData };
        // root passes every filter
        if !matches!(o.caller, MiniCaller::system(RawOrigin::Root)) {
            o.filter = Rc::new(|c| <R as Config>::BaseCallFilter::contains(c));
        }
        o
    }
    pub fn signed(a: A) -> Self {
        Self::of(RawOrigin::Signed(a))
    }
    pub fn root() -> Self {
        Self::of(RawOrigin::Root)
    }
    pub fn none() -> Self {
        Self::of(RawOrigin::None)
    }
    pub fn as_system_ref(&self) -> Option<&RawOrigin<A>> {
        match &self.caller {
            MiniCaller::system(r) => Some(r),
        }
    }
}
impl<A, C: 'static, R: Config<RuntimeCall = C>> From<RawOrigin<A>> for MiniOrigin<A, C, R> {
    fn from(r: RawOrigin<A>) -> Self {
        Self::of(r)
    }
}
impl<A, C: 'static, R: Config<RuntimeCall = C>> From<MiniCaller<A>> for MiniOrigin<A, C, R> {
    fn from(r: MiniCaller<A>) -> Self {
        match r {
            MiniCaller::system(r) => Self::of(r),
        }
    }
}
impl<A, C: 'static, R: Config<RuntimeCall = C>> From<Option<A>> for MiniOrigin<A, C, R> {
    fn from(r: Option<A>) -> Self {
        Self::of(r.into())
    }
}
impl<A, C, R> From<MiniOrigin<A, C, R>> for Result<RawOrigin<A>, MiniOrigin<A, C, R>> {
    fn from(o: MiniOrigin<A, C, R>) -> Self {
        match o.caller {
            MiniCaller::system(r) => Ok(r),
        }
    }
}
impl<A, C: 'static, R: Config<RuntimeCall = C>> OriginTrait for MiniOrigin<A, C, R> {
    type Call = C;
    type PalletsOrigin = MiniCaller<A>;
    type AccountId = A;
    fn add_filter(&mut self, filter: impl Fn(&C) -> bool + 'static) {
        let f = self.filter.clone();
        self.filter = Rc::new(move |c| f(c) && filter(c));
    }
    fn reset_filter(&mut self) {
        self.filter = Rc::new(|c| <R as Config>::BaseCallFilter::contains(c));
    }
    fn set_caller_from(&mut self, other: impl Into<Self>) {
        self.caller = other.into().caller;
    }
    fn filter_call(&self, call: &C) -> bool {
        match self.caller {
            MiniCaller::system(RawOrigin::Root) => true,
            _ => (self.filter)(call),
        }
    }
    fn caller(&self) -> &MiniCaller<A> {
        &self.caller
    }
    fn into_caller(self) -> MiniCaller<A> {
        self.caller
    }
    fn none() -> Self {
        Self::of(RawOrigin::None)
    }
    fn root() -> Self {
        Self::of(RawOrigin::Root)
    }
    fn signed(by: A) -> Self {
        Self::of(RawOrigin::Signed(by))
    }
    fn as_signed(self) -> Option<A> {
        match self.caller {
            MiniCaller::system(RawOrigin::Signed(a)) => Some(a),
            _ => None,
        }
    }
}

pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Signed(t)) => Ok(t),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(None),
        Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::Root) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
    O: Into<Result<RawOrigin<A>, O>>,
{
    match o.into() {
        Ok(RawOrigin::None) => Ok(()),
        _ => Err(BadOrigin),
    }
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
    type Success = ();
    fn try_origin(o: O) -> Result<(), O> {
        o.into().and_then(|o| match o {
            RawOrigin::Root => Ok(()),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(who) => Ok(who),
            r => Err(O::from(r)),
        })
    }
}
pub struct EnsureSignedBy<Who, A>(PhantomData<(Who, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, Who: SortedMembers<A>, A: PartialEq + Clone + Ord> EnsureOrigin<O> for EnsureSignedBy<Who, A> {
    type Success = A;
    fn try_origin(o: O) -> Result<A, O> {
        o.into().and_then(|o| match o {
            RawOrigin::Signed(ref who) if Who::contains(who) => Ok(who.clone()),
            r => Err(O::from(r)),
        })
    }
}

pub trait SystemWeightInfo {}
impl SystemWeightInfo for () {}
pub trait SetCode<T> {}
impl<T> SetCode<T> for () {}

pub type ConsumerLimits = ();

#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Index, AccountData> {
    pub nonce: Index,
    pub consumers: u32,
    pub providers: u32,
    pub sufficients: u32,
    pub data: AccountData,
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub enum Phase {
    ApplyExtrinsic(u32),
    Finalization,
    Initialization,
}
impl Default for Phase {
    fn default() -> Self {
        Self::Initialization
    }
}
#[derive(Encode, Decode, Clone, PartialEq, Eq, Debug, TypeInfo)]
pub struct EventRecord<E: Parameter + Member, T> {
    pub phase: Phase,
    pub event: E,
    pub topics: Vec<T>,
}
#[derive(Eq, PartialEq, Debug)]
pub enum IncRefStatus {
    Created,
    Existed,
}
#[derive(Eq, PartialEq, Debug)]
pub enum DecRefStatus {
    Reaped,
    Exists,
}

pub use pallet::*;
#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use crate::pallet_prelude::*;
    use frame_support::pallet_prelude::*;

    #[pallet::config]
    pub trait Config: 'static + Eq + Clone {
        type BaseCallFilter: Contains<Self::RuntimeCall>;
        type BlockWeights: Get<limits::BlockWeights>;
        type BlockLength;
        type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
            + From<RawOrigin<Self::AccountId>>
            + Clone
            + OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
        type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + Debug + From<Call<Self>>;
        type Nonce: Parameter + Member + MaybeSerializeDeserialize + Debug + Default + MaybeDisplay + AtLeast32Bit + Copy + MaxEncodedLen;
        type Hash: Parameter
            + Member
            + MaybeSerializeDeserialize
            + Debug
            + MaybeDisplay
            + SimpleBitOps
            + Ord
            + Default
            + Copy
            + std::hash::Hash
            + AsRef<[u8]>
            + AsMut<[u8]>
            + MaxEncodedLen;
        type Hashing: Hash<Output = Self::Hash> + TypeInfo;
        type AccountId: Parameter + Member + MaybeSerializeDeserialize + Debug + MaybeDisplay + Ord + MaxEncodedLen;
        type Lookup: StaticLookup<Target = Self::AccountId>;
        type Block: HeaderProvider;
        type RuntimeEvent: Parameter + Member + From<Event<Self>> + Debug + IsType<<Self as frame_system::Config>::RuntimeEvent>;
        type BlockHashCount: Get<BlockNumberFor<Self>>;
        type DbWeight: Get<sp_weights::RuntimeDbWeight>;
        type Version;
        type PalletInfo: frame_support::traits::PalletInfo;
        type AccountData: Member + FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
        type OnNewAccount: OnNewAccount<Self::AccountId>;
        type OnKilledAccount: OnKilledAccount<Self::AccountId>;
        type SystemWeightInfo;
        type SS58Prefix;
        type OnSetCode;
        type MaxConsumers: Get<u32>;
    }

    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(sp_weights::Weight::from_parts(remark.len() as u64, 0))]
        pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
            let _ = remark;
            Ok(().into())
        }
        #[pallet::call_index(7)]
        #[pallet::weight(sp_weights::Weight::zero())]
        pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
            let who = ensure_signed(origin)?;
            let hash = T::Hashing::hash(&remark[..]);
            Self::deposit_event(Event::Remarked { sender: who, hash });
            Ok(().into())
        }
    }

    #[pallet::event]
    pub enum Event<T: Config> {
        ExtrinsicSuccess { dispatch_info: frame_support::dispatch::DispatchInfo },
        ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: frame_support::dispatch::DispatchInfo },
        CodeUpdated,
        NewAccount { account: T::AccountId },
        KilledAccount { account: T::AccountId },
        Remarked { sender: T::AccountId, hash: T::Hash },
    }

    #[pallet::error]
    pub enum Error<T> {
        InvalidSpecName,
        SpecVersionNeedsToIncrease,
        FailedToExtractRuntimeVersion,
        NonDefaultComposite,
        NonZeroRefCount,
        CallFiltered,
    }

    #[pallet::storage]
    #[pallet::getter(fn account)]
    pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
    #[pallet::storage]
    pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
    #[pallet::storage]
    pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
    #[pallet::storage]
    pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
    #[pallet::storage]
    pub type Events<T: Config> = StorageValue<_, Vec<EventRecord<T::RuntimeEvent, T::Hash>>, ValueQuery>;
    #[pallet::storage]
    pub type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
    #[pallet::storage]
    pub type Digest<T: Config> = StorageValue<_, sp_runtime::generic::Digest, ValueQuery>;

    #[pallet::genesis_config]
    #[derive(frame_support::DefaultNoBound)]
    pub struct GenesisConfig<T: Config> {
        pub _config: PhantomData<T>,
    }
    #[pallet::genesis_build]
    impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
        fn build(&self) {
            <ParentHash<T>>::put(T::Hashing::hash(&[69u8; 32]));
        }
    }
}

thread_local! {
    static QUIET: RefCell<bool> = RefCell::new(false);
}
/// stops the recording of events (they are not part of what most checks look at, and slow long histories down)
pub fn set_quiet(q: bool) {
    QUIET.with(|x| *x.borrow_mut() = q);
}

impl<T: Config> Pallet<T> {
    pub fn block_number() -> BlockNumberFor<T> {
        Number::<T>::get()
    }
    pub fn set_block_number(n: BlockNumberFor<T>) {
        Number::<T>::put(n);
    }
    /// weights are not added up here
    pub fn register_extra_weight_unchecked(_: frame_support::weights::Weight, _: frame_support::dispatch::DispatchClass) {}
    pub fn parent_hash() -> T::Hash {
        ParentHash::<T>::get()
    }
    pub fn set_parent_hash(h: T::Hash) {
        ParentHash::<T>::put(h);
    }
    pub fn block_hash(n: BlockNumberFor<T>) -> T::Hash {
        BlockHash::<T>::get(n)
    }
    pub fn events() -> Vec<EventRecord<T::RuntimeEvent, T::Hash>> {
        Events::<T>::get()
    }
    pub fn event_count() -> u32 {
        EventCount::<T>::get()
    }
    pub fn reset_events() {
        Events::<T>::kill();
        EventCount::<T>::kill();
    }
    pub fn digest() -> sp_runtime::generic::Digest {
        Digest::<T>::get()
    }
    pub fn deposit_log(item: sp_runtime::generic::DigestItem) {
        Digest::<T>::mutate(|d| d.push(item));
    }
    pub fn initialize(number: &BlockNumberFor<T>, parent_hash: &T::Hash, digest: &sp_runtime::generic::Digest) {
        Digest::<T>::put(digest);
        Number::<T>::put(number);
        ParentHash::<T>::put(parent_hash);
        BlockHash::<T>::insert(*number - One::one(), parent_hash);
        Self::reset_events();
    }
    pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
        // no events in the genesis block
        if Self::block_number().is_zero() || QUIET.with(|q| *q.borrow()) {
            return;
        }
        let e = EventRecord { phase: Phase::default(), event: event.into(), topics: vec![] as Vec<T::Hash> };
        EventCount::<T>::mutate(|n| *n += 1);
        Events::<T>::append(e);
    }
    pub fn assert_has_event(event: T::RuntimeEvent) {
        assert!(Self::events().iter().any(|r| r.event == event), "no event {event:?}");
    }
    pub fn assert_last_event(event: T::RuntimeEvent) {
        assert_eq!(Self::events().last().expect("an event").event, event);
    }
    pub fn account_nonce(who: impl codec::EncodeLike<T::AccountId>) -> T::Nonce {
        Account::<T>::get(who).nonce
    }
    pub fn inc_account_nonce(who: impl codec::EncodeLike<T::AccountId>) {
        Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one());
    }
    pub fn account_exists(who: &T::AccountId) -> bool {
        Account::<T>::contains_key(who)
    }
    pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
        Account::<T>::mutate(who, |a| {
            if a.providers == 0 && a.sufficients == 0 {
                a.providers = 1;
                T::OnNewAccount::on_new_account(who);
                Self::deposit_event(Event::NewAccount { account: who.clone() });
                IncRefStatus::Created
            } else {
                a.providers = a.providers.saturating_add(1);
                IncRefStatus::Existed
            }
        })
    }
    pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
        Account::<T>::try_mutate_exists(who, |maybe| {
            if let Some(mut a) = maybe.take() {
                if a.providers == 0 {
                    a.providers = 1;
                }
                match (a.providers, a.consumers, a.sufficients) {
                    (1, 0, 0) => {
                        T::OnKilledAccount::on_killed_account(who);
                        Self::deposit_event(Event::KilledAccount { account: who.clone() });
                        Ok(DecRefStatus::Reaped)
                    }
                    (1, c, _) if c > 0 => Err(DispatchError::ConsumerRemaining),
                    (x, _, _) => {
                        a.providers = x - 1;
                        *maybe = Some(a);
                        Ok(DecRefStatus::Exists)
                    }
                }
            } else {
                Ok(DecRefStatus::Reaped)
            }
        })
    }
    pub fn providers(who: &T::AccountId) -> u32 {
        Account::<T>::get(who).providers
    }
    pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
        Account::<T>::try_mutate(who, |a| {
            if a.providers > 0 {
                if a.consumers < T::MaxConsumers::get() {
                    a.consumers = a.consumers.saturating_add(1);
                    Ok(())
                } else {
                    Err(DispatchError::TooManyConsumers)
                }
            } else {
                Err(DispatchError::NoProviders)
            }
        })
    }
    pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
        Account::<T>::try_mutate(who, |a| {
            if a.providers > 0 {
                a.consumers = a.consumers.saturating_add(1);
                Ok(())
            } else {
                Err(DispatchError::NoProviders)
            }
        })
    }
    pub fn dec_consumers(who: &T::AccountId) {
        Account::<T>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1))
    }
    pub fn consumers(who: &T::AccountId) -> u32 {
        Account::<T>::get(who).consumers
    }
    pub fn can_dec_provider(who: &T::AccountId) -> bool {
        let a = Account::<T>::get(who);
        a.consumers == 0 || a.providers > 1
    }
    pub fn can_inc_consumer(who: &T::AccountId) -> bool {
        let a = Account::<T>::get(who);
        a.providers > 0 && a.consumers < T::MaxConsumers::get()
    }
}

impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
    fn get(k: &T::AccountId) -> T::AccountData {
        Account::<T>::get(k).data
    }
    fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
        let account = Account::<T>::get(k);
        let is_default = account.data == T::AccountData::default();
        let mut some_data = if is_default { None } else { Some(account.data) };
        let result = f(&mut some_data)?;
        if Self::providers(k) > 0 || Self::account_exists(k) {
            Account::<T>::mutate(k, |a| a.data = some_data.unwrap_or_default());
        } else {
            Account::<T>::remove(k)
        }
        Ok(result)
    }
}

pub struct Provider<T>(PhantomData<T>);
impl<T: Config> HandleLifetime<T::AccountId> for Provider<T> {
    fn created(t: &T::AccountId) -> Result<(), DispatchError> {
        Pallet::<T>::inc_providers(t);
        Ok(())
    }
    fn killed(t: &T::AccountId) -> Result<(), DispatchError> {
        Pallet::<T>::dec_providers(t).map(|_| ())
    }
}

/// the account id of a sender that may not exist
pub struct ChainContext<T>(PhantomData<T>);
impl<T> Default for ChainContext<T> {
    fn default() -> Self {
        ChainContext(PhantomData)
    }
}
#[allow(dead_code)]
fn _unused<T: Config>(_: PostDispatchInfo, _: &dyn Fn() -> DispatchResultWithPostInfo) -> HeaderFor<T>
where
    BlockNumberFor<T>: Bounded + Saturating,
{
    unreachable!()
}
