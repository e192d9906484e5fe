//! The little of the language between chains, and of contracts, that the runtimes' glue names.
#![allow(non_camel_case_types)]
use primitives::AccountId;
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum NetworkId {
    Kusama,
    Polkadot,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Junction {
    Parachain(u32),
    AccountId32 { network: Option<NetworkId>, id: [u8; 32] },
    PalletInstance(u8),
    GeneralIndex(u128),
    GeneralKey { length: u8, data: [u8; 32] },
    OnlyChild,
    GlobalConsensus(NetworkId),
}
pub use Junction::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Junctions {
    Here,
    X1(Junction),
    X2(Junction, Junction),
    X3(Junction, Junction, Junction),
}
pub use Junctions::*;
pub type InteriorMultiLocation = Junctions;
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MultiLocation {
    pub parents: u8,
    pub interior: Junctions,
}
impl MultiLocation {
    pub const fn new(parents: u8, interior: Junctions) -> Self {
        MultiLocation { parents, interior }
    }
    pub const fn parent() -> Self {
        MultiLocation { parents: 1, interior: Here }
    }
    pub const fn here() -> Self {
        MultiLocation { parents: 0, interior: Here }
    }
    pub fn interior(&self) -> &Junctions {
        &self.interior
    }
    pub const fn parent_count(&self) -> u8 {
        self.parents
    }
    pub fn first_interior(&self) -> Option<&Junction> {
        match &self.interior {
            Here => None,
            X1(a) | X2(a, _) | X3(a, _, _) => Some(a),
        }
    }
}
impl From<Junctions> for MultiLocation {
    fn from(interior: Junctions) -> Self {
        MultiLocation { parents: 0, interior }
    }
}
impl From<Junction> for MultiLocation {
    fn from(x: Junction) -> Self {
        MultiLocation { parents: 0, interior: X1(x) }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AssetId {
    Concrete(MultiLocation),
    Abstract([u8; 32]),
}
pub use AssetId::*;
impl From<MultiLocation> for AssetId {
    fn from(x: MultiLocation) -> Self {
        Concrete(x)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fungibility {
    Fungible(u128),
    NonFungible(u64),
}
pub use Fungibility::*;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MultiAsset {
    pub id: AssetId,
    pub fun: Fungibility,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ParaId(u32);
impl From<u32> for ParaId {
    fn from(x: u32) -> Self {
        ParaId(x)
    }
}
impl From<ParaId> for u32 {
    fn from(x: ParaId) -> Self {
        x.0
    }
}
pub struct ParachainInfo;
impl ParachainInfo {
    pub fn get() -> ParaId {
        WORLD.with(|w| ParaId(w.borrow().para))
    }
    pub fn parachain_id() -> ParaId {
        Self::get()
    }
}
/// the rest of the world, as the case says
#[derive(Default)]
pub struct World {
    pub para: u32,
    /// the registered assets: where they are, and what a second of their owner's time costs
    pub assets: Vec<(u32, Option<MultiLocation>, u128)>,
    pub paused: Vec<&'static str>,
}
thread_local! {
    pub static WORLD: RefCell<World> = RefCell::new(World::default());
}
pub struct CustomMetadata {
    pub fee_per_second: u128,
    pub coingecko_id: Vec<u8>,
}
pub struct AssetMetadata {
    pub additional: CustomMetadata,
    pub location: Option<MultiLocation>,
}
pub struct AssetRegistry;
impl AssetRegistry {
    pub fn multilocation(id: &u32) -> Result<Option<MultiLocation>, sp_runtime::DispatchError> {
        WORLD.with(|w| Ok(w.borrow().assets.iter().find(|x| x.0 == *id).and_then(|x| x.1)))
    }
    pub fn location_to_asset_id(x: &MultiLocation) -> Option<u32> {
        WORLD.with(|w| w.borrow().assets.iter().find(|a| a.1 == Some(*x)).map(|a| a.0))
    }
    pub fn fetch_metadata_by_location(x: &MultiLocation) -> Option<AssetMetadata> {
        WORLD.with(|w| {
            w.borrow().assets.iter().find(|a| a.1 == Some(*x)).map(|a| AssetMetadata {
                additional: CustomMetadata { fee_per_second: a.2, coingecko_id: vec![] },
                location: a.1,
            })
        })
    }
}
pub trait FixedConversionRateProvider {
    fn get_fee_per_second(location: &MultiLocation) -> Option<u128>;
}
pub trait TakeRevenue {
    fn take_revenue(revenue: MultiAsset);
}
/// what an asset is taken at, and who gets it
pub trait Takes {
    fn rate(of: &MultiLocation) -> Option<u128>;
    fn take(x: MultiAsset);
}
pub struct FixedRateOfFungible<T, R>(std::marker::PhantomData<(T, R)>);
impl<T: frame_support::traits::Get<(AssetId, u128, u128)>, R: TakeRevenue> Takes for FixedRateOfFungible<T, R> {
    fn rate(of: &MultiLocation) -> Option<u128> {
        let (id, second, _) = T::get();
        (id == Concrete(*of)).then_some(second)
    }
    fn take(x: MultiAsset) {
        R::take_revenue(x)
    }
}
pub struct FixedRateAssetRegistryTrader<P>(std::marker::PhantomData<P>);
pub struct AssetRegistryTrader<T, R>(std::marker::PhantomData<(T, R)>);
impl<P: FixedConversionRateProvider, R: TakeRevenue> Takes for AssetRegistryTrader<FixedRateAssetRegistryTrader<P>, R> {
    fn rate(of: &MultiLocation) -> Option<u128> {
        P::get_fee_per_second(of)
    }
    fn take(x: MultiAsset) {
        R::take_revenue(x)
    }
}
macro_rules! tuple {
    ($($t:ident)*) => {
        impl<$($t: Takes),*> Takes for ($($t,)*) {
            fn rate(of: &MultiLocation) -> Option<u128> {
                None$(.or_else(|| $t::rate(of)))*
            }
            /// every one of them gets the same once
            fn take(x: MultiAsset) {
                $($t::take(x.clone());)*
            }
        }
    };
}
tuple!(A B);
tuple!(A B C);
tuple!(A B C D);
tuple!(A B C D E);
tuple!(A B C D E F);
tuple!(A B C D E F G);
tuple!(A B C D E F G H);

/// how many of a tuple take
pub trait Count {
    const N: u128;
}
macro_rules! count {
    ($($n:literal $($t:ident)*;)*) => {$(impl<$($t),*> Count for ($($t,)*) { const N: u128 = $n; })*};
}
count! { 2 A B; 3 A B C; 4 A B C D; 5 A B C D E; 6 A B C D E F; 7 A B C D E F G; 8 A B C D E F G H; }

/// the calls of the pallet for messages between chains
pub mod pallet_xcm {
    #[derive(Clone, Debug)]
    pub enum Call<T> {
        send { to: u8 },
        teleport_assets { to: u8 },
        reserve_transfer_assets { to: u8 },
        execute { to: u8 },
        force_xcm_version { to: u8 },
        force_default_xcm_version { to: u8 },
        force_subscribe_version_notify { to: u8 },
        force_unsubscribe_version_notify { to: u8 },
        limited_reserve_transfer_assets { to: u8 },
        limited_teleport_assets { to: u8 },
        force_suspension { to: u8 },
        _T(std::marker::PhantomData<T>, std::convert::Infallible),
    }
}
/// a call of a pallet that is not looked into
#[derive(Clone, Debug)]
pub struct Any;
/// the name of a call's pallet
pub trait Named {
    fn name(&self) -> &'static str;
}
/// what is paused
pub struct TxPause;
impl<C: Named> frame_support::traits::Contains<C> for TxPause {
    fn contains(c: &C) -> bool {
        WORLD.with(|w| !w.borrow().paused.contains(&c.name()))
    }
}
/// what a contract's call into the chain sees
pub mod pallet_contracts {
    pub mod chain_extension {
        use sp_runtime::DispatchError;
        pub trait SysConfig {
            type AccountId;
            type Hash;
        }
        pub trait Ext {
            type T: SysConfig;
            fn memory(&mut self) -> &mut super::super::Memory;
            fn len(&self) -> u32;
        }
        pub struct InitState;
        pub struct BufInBufOutState;
        pub struct Environment<'a, E: Ext, S> {
            pub ext: &'a mut E,
            pub s: std::marker::PhantomData<S>,
        }
        #[derive(Debug, PartialEq, Eq)]
        pub enum RetVal {
            Converging(u32),
            Diverging { flags: u32, data: Vec<u8> },
        }
        pub type Result<T> = std::result::Result<T, DispatchError>;
        pub trait ChainExtension<C> {
            fn call<E: Ext>(&mut self, env: Environment<E, InitState>) -> Result<RetVal>
            where
                <E::T as SysConfig>::AccountId: sp_core::crypto::UncheckedFrom<<E::T as SysConfig>::Hash> + AsRef<[u8]>;
            fn enabled() -> bool {
                true
            }
        }
        impl<'a, E: Ext> Environment<'a, E, InitState> {
            pub fn func_id(&self) -> u16 {
                super::super::FUNC.with(|f| *f.borrow())
            }
            pub fn buf_in_buf_out(self) -> Environment<'a, E, BufInBufOutState> {
                Environment { ext: self.ext, s: std::marker::PhantomData }
            }
        }
        impl<'a, E: Ext> Environment<'a, E, BufInBufOutState> {
            pub fn in_len(&self) -> u32 {
                self.ext.len()
            }
            pub fn read(&mut self, max: u32) -> Result<Vec<u8>> {
                let m = self.ext.memory();
                Ok(m.input[..m.input.len().min(max as usize)].to_vec())
            }
            pub fn read_as_unbounded<T: codec::Decode>(&mut self, len: u32) -> Result<T> {
                let b = self.read(len)?;
                T::decode(&mut &b[..]).map_err(|_| DispatchError::Other("DecodingFailed"))
            }
            pub fn write(&mut self, x: &[u8], _allow_skip: bool, _weight_per_byte: Option<u64>) -> Result<()> {
                let m = self.ext.memory();
                if m.room < x.len() {
                    return Err(DispatchError::Other("OutputBufferTooSmall"));
                }
                m.output = Some(x.to_vec());
                Ok(())
            }
        }
    }
}
#[derive(Default)]
pub struct Memory {
    pub input: Vec<u8>,
    pub room: usize,
    pub output: Option<Vec<u8>>,
}
thread_local! {
    pub static FUNC: RefCell<u16> = RefCell::new(0);
}
/// a contract
pub struct Contract(pub Memory);
pub struct System;
impl pallet_contracts::chain_extension::SysConfig for System {
    type AccountId = AccountId;
    type Hash = sp_core::H256;
}
impl pallet_contracts::chain_extension::Ext for Contract {
    type T = System;
    fn memory(&mut self) -> &mut Memory {
        &mut self.0
    }
    fn len(&self) -> u32 {
        self.0.input.len() as u32
    }
}
