pub use upstream::{constants, ffi, AllPreallocated, Error, Secp256k1, Verification};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct PublicKey(upstream::PublicKey);

impl PublicKey {
    pub fn from_slice(data: &[u8]) -> Result<PublicKey, Error> {
        upstream::PublicKey::from_slice(data).map(PublicKey)
    }
    pub fn serialize(&self) -> [u8; 33] {
        self.0.serialize()
    }
    /// rust-secp256k1 < 0.24: secp256k1_ec_pubkey_tweak_mul
    pub fn mul_assign<C: Verification>(&mut self, secp: &Secp256k1<C>, other: &[u8]) -> Result<(), Error> {
        if other.len() != 32 {
            return Err(Error::InvalidTweak);
        }
        let mut b = [0u8; 32];
        b.copy_from_slice(other);
        let s = upstream::Scalar::from_be_bytes(b).map_err(|_| Error::InvalidTweak)?;
        self.0 = self.0.mul_tweak(secp, &s)?;
        Ok(())
    }
}
