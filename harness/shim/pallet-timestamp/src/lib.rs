//! The part of FRAME's timestamp pallet that the pallets of /repo use: see DESIGN.md.
#![allow(clippy::all)]
pub use pallet::*;

pub trait WeightInfo {}
impl WeightInfo for () {}

#[frame_support::pallet]
pub mod pallet {
    use super::*;
    use frame_support::{pallet_prelude::*, traits::{OnTimestampSet, Time, UnixTime}};
    use frame_system::pallet_prelude::*;
    use sp_runtime::traits::{AtLeast32Bit, SaturatedConversion, Scale};

    #[pallet::config]
    pub trait Config: frame_system::Config {
        type Moment: Parameter + Default + AtLeast32Bit + Scale<BlockNumberFor<Self>, Output = Self::Moment> + Copy + MaxEncodedLen + scale_info::StaticTypeInfo;
        type OnTimestampSet: OnTimestampSet<Self::Moment>;
        #[pallet::constant]
        type MinimumPeriod: Get<Self::Moment>;
        type WeightInfo;
    }

    #[pallet::pallet]
    pub struct Pallet<T>(_);

    #[pallet::storage]
    #[pallet::getter(fn now)]
    pub type Now<T: Config> = StorageValue<_, T::Moment, ValueQuery>;
    #[pallet::storage]
    pub type DidUpdate<T: Config> = StorageValue<_, bool, ValueQuery>;

    #[pallet::hooks]
    impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {
        fn on_finalize(_n: BlockNumberFor<T>) {
            DidUpdate::<T>::take();
        }
    }

    #[pallet::call]
    impl<T: Config> Pallet<T> {
        #[pallet::call_index(0)]
        #[pallet::weight(Weight::zero())]
        pub fn set(origin: OriginFor<T>, #[pallet::compact] now: T::Moment) -> DispatchResult {
            ensure_none(origin)?;
            Now::<T>::put(now);
            DidUpdate::<T>::put(true);
            <T::OnTimestampSet as OnTimestampSet<_>>::on_timestamp_set(now);
            Ok(())
        }
    }
    impl<T: Config> Pallet<T> {
        pub fn get() -> T::Moment {
            Self::now()
        }
        pub fn set_timestamp(now: T::Moment) {
            Now::<T>::put(now);
            DidUpdate::<T>::put(true);
            <T::OnTimestampSet as OnTimestampSet<_>>::on_timestamp_set(now);
        }
    }
    impl<T: Config> Time for Pallet<T> {
        type Moment = T::Moment;
        fn now() -> T::Moment {
            Self::now()
        }
    }
    impl<T: Config> UnixTime for Pallet<T> {
        fn now() -> core::time::Duration {
            core::time::Duration::from_millis(Self::now().saturated_into::<u64>())
        }
    }
}
