use sp_weights::Weight;

pub trait OnInitialize<BlockNumber> {
    fn on_initialize(_n: BlockNumber) -> Weight {
        Weight::zero()
    }
}
pub trait OnFinalize<BlockNumber> {
    fn on_finalize(_n: BlockNumber) {}
}
pub trait OnIdle<BlockNumber> {
    fn on_idle(_n: BlockNumber, _remaining: Weight) -> Weight {
        Weight::zero()
    }
}
pub trait OnRuntimeUpgrade {
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
}
pub trait OffchainWorker<BlockNumber> {
    fn offchain_worker(_n: BlockNumber) {}
}
pub trait OnGenesis {
    fn on_genesis() {}
}
pub trait OnTimestampSet<Moment> {
    fn on_timestamp_set(moment: Moment);
}
impl<M> OnTimestampSet<M> for () {
    fn on_timestamp_set(_: M) {}
}

pub trait Hooks<BlockNumber> {
    fn on_finalize(_n: BlockNumber) {}
    fn on_idle(_n: BlockNumber, _remaining: Weight) -> Weight {
        Weight::zero()
    }
    fn on_initialize(_n: BlockNumber) -> Weight {
        Weight::zero()
    }
    fn on_runtime_upgrade() -> Weight {
        Weight::zero()
    }
    fn offchain_worker(_n: BlockNumber) {}
    fn integrity_test() {}
}

macro_rules! tuples {
    ($($n:ident)*) => {
        impl<B: Clone, $($n: OnInitialize<B>),*> OnInitialize<B> for ($($n,)*) {
            #[allow(unused)]
            fn on_initialize(n: B) -> Weight { let mut w = Weight::zero(); $(w = w.saturating_add($n::on_initialize(n.clone()));)* w }
        }
        impl<B: Clone, $($n: OnFinalize<B>),*> OnFinalize<B> for ($($n,)*) {
            #[allow(unused)]
            fn on_finalize(n: B) { $($n::on_finalize(n.clone());)* }
        }
        impl<$($n: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($n,)*) {
            fn on_runtime_upgrade() -> Weight { let mut _w = Weight::zero(); $(_w = _w.saturating_add($n::on_runtime_upgrade());)* _w }
        }
    };
}
tuples!();
tuples!(A);
tuples!(A C);
tuples!(A C D);
tuples!(A C D E);
tuples!(A C D E F);
tuples!(A C D E F G);
tuples!(A C D E F G H);
tuples!(A C D E F G H I);
tuples!(A C D E F G H I J);
tuples!(A C D E F G H I J K);
tuples!(A C D E F G H I J K L);
tuples!(A C D E F G H I J K L M);
tuples!(A C D E F G H I J K L M N);
tuples!(A C D E F G H I J K L M N O);
tuples!(A C D E F G H I J K L M N O P);
tuples!(A C D E F G H I J K L M N O P Q);
tuples!(A C D E F G H I J K L M N O P Q R);
tuples!(A C D E F G H I J K L M N O P Q R S);
tuples!(A C D E F G H I J K L M N O P Q R S T);
