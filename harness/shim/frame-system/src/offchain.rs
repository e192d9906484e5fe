//! unsigned transactions from offchain workers
use codec::Encode;
use std::marker::PhantomData;

pub trait SendTransactionTypes<LocalCall> {
    type Extrinsic: sp_runtime::traits::Extrinsic<Call = Self::OverarchingCall> + Encode;
    type OverarchingCall: From<LocalCall> + Encode;
}
pub struct SubmitTransaction<T: SendTransactionTypes<C>, C>(PhantomData<(T, C)>);
impl<T: SendTransactionTypes<C>, C> SubmitTransaction<T, C> {
    pub fn submit_transaction(
        call: <T as SendTransactionTypes<C>>::OverarchingCall,
        signature: Option<<<T as SendTransactionTypes<C>>::Extrinsic as sp_runtime::traits::Extrinsic>::SignaturePayload>,
    ) -> Result<(), ()> {
        let xt = <T::Extrinsic as sp_runtime::traits::Extrinsic>::new(call, signature).ok_or(())?;
        sp_io::offchain::submit_transaction(xt.encode())
    }
    pub fn submit_unsigned_transaction(call: <T as SendTransactionTypes<C>>::OverarchingCall) -> Result<(), ()> {
        Self::submit_transaction(call, None)
    }
}
