//! Ideal keyed hash with the interface of hmac 0.12: equal inputs give equal digests,
//! different inputs give different ones.
pub use digest;
pub use digest::Mac;

use digest::core_api::BlockSizeUser;
use digest::crypto_common::{InvalidLength, Key, KeySizeUser};
use digest::{Digest, FixedOutput, KeyInit, MacMarker, Output, OutputSizeUser, Update};
use psym::model::{get, same, stream, HmacCall};
use std::marker::PhantomData;

#[derive(Clone)]
pub struct Hmac<D> {
    key: Vec<u8>,
    data: Vec<u8>,
    p: PhantomData<D>,
}
pub type SimpleHmac<D> = Hmac<D>;

// what the model itself keeps in memory doesn't count
impl<D> Drop for Hmac<D> {
    fn drop(&mut self) {
        let _w = psym::Pause::new();
        drop(std::mem::take(&mut self.key));
        drop(std::mem::take(&mut self.data));
    }
}
impl<D: BlockSizeUser> KeySizeUser for Hmac<D> {
    type KeySize = D::BlockSize;
}
impl<D> MacMarker for Hmac<D> {}
impl<D: BlockSizeUser> KeyInit for Hmac<D> {
    fn new(key: &Key<Self>) -> Self {
        Self::new_from_slice(key.as_slice()).unwrap()
    }
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
        let _w = psym::Pause::new();
        Ok(Self {
            key: key.to_vec(),
            data: vec![],
            p: PhantomData,
        })
    }
}
impl<D> Update for Hmac<D> {
    fn update(&mut self, data: &[u8]) {
        let _w = psym::Pause::new();
        self.data.extend_from_slice(data);
    }
}
impl<D: Digest> OutputSizeUser for Hmac<D> {
    type OutputSize = D::OutputSize;
}
impl<D: Digest> FixedOutput for Hmac<D> {
    fn finalize_into(mut self, out: &mut Output<Self>) {
        let _w = psym::Pause::new();
        let m = get();
        let n = out.len();
        for c in m.hmac.iter() {
            if c.key.len() == self.key.len() && c.data.len() == self.data.len() && c.out.len() == n {
                if same(&c.key, &self.key) & same(&c.data, &self.data) {
                    out.copy_from_slice(&c.out);
                    return;
                }
            }
        }
        let mut o = vec![0u8; n];
        stream(0x4a, m.hmac.len() as u64, &mut o);
        out.copy_from_slice(&o);
        m.hmac.push(HmacCall {
            key: std::mem::take(&mut self.key),
            data: std::mem::take(&mut self.data),
            out: o,
        });
    }
}
