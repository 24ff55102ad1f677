//! Ideal authenticated encryption with the interface of aes-gcm 0.9: a ciphertext says
//! nothing about its plaintext but the length, and only what was produced under the same
//! key, nonce and associated data decrypts.
pub use aead::{self, AeadCore, AeadInPlace, Error, NewAead};

use aead::consts::{U0, U12, U16, U32};
use aead::generic_array::{ArrayLength, GenericArray};
use psym::model::{get, same, stream, AeadCall};
use std::marker::PhantomData;

pub type Key<KeySize> = GenericArray<u8, KeySize>;
pub type Nonce<NonceSize> = GenericArray<u8, NonceSize>;
pub type Tag = GenericArray<u8, U16>;

#[derive(Clone)]
pub struct Aes128;
#[derive(Clone)]
pub struct Aes256;
pub trait ModelCipher {
    type KeySize: ArrayLength<u8>;
}
impl ModelCipher for Aes128 {
    type KeySize = U16;
}
impl ModelCipher for Aes256 {
    type KeySize = U32;
}
pub type Aes128Gcm = AesGcm<Aes128, U12>;
pub type Aes256Gcm = AesGcm<Aes256, U12>;

#[derive(Clone)]
pub struct AesGcm<Aes, NonceSize> {
    key: Vec<u8>,
    p: PhantomData<(Aes, NonceSize)>,
}

impl<Aes: ModelCipher, NonceSize: ArrayLength<u8>> NewAead for AesGcm<Aes, NonceSize> {
    type KeySize = Aes::KeySize;
    fn new(key: &GenericArray<u8, Self::KeySize>) -> Self {
        let _w = psym::Pause::new();
        Self {
            key: key.to_vec(),
            p: PhantomData,
        }
    }
}
impl<Aes: ModelCipher, NonceSize: ArrayLength<u8>> AeadCore for AesGcm<Aes, NonceSize> {
    type NonceSize = NonceSize;
    type TagSize = U16;
    type CiphertextOverhead = U0;
}
impl<Aes, NonceSize> Drop for AesGcm<Aes, NonceSize> {
    fn drop(&mut self) {
        for b in self.key.iter_mut() {
            unsafe { std::ptr::write_volatile(b, 0) };
        }
    }
}

impl<Aes: ModelCipher, NonceSize: ArrayLength<u8>> AeadInPlace for AesGcm<Aes, NonceSize> {
    fn encrypt_in_place_detached(
        &self,
        nonce: &Nonce<NonceSize>,
        aad: &[u8],
        buffer: &mut [u8],
    ) -> Result<Tag, Error> {
        let _w = psym::Pause::new();
        let m = get();
        let pt = buffer.to_vec();
        let mut ct = vec![0u8; buffer.len() + 16];
        if m.aead_symbolic {
            psym::fill(&mut ct, "ciphertext");
        } else {
            stream(0xae, m.aead_log.len() as u64, &mut ct);
        }
        let (body, tag) = ct.split_at(buffer.len());
        buffer.copy_from_slice(body);
        let tag = Tag::clone_from_slice(tag);
        let call = AeadCall {
            key: self.key.clone(),
            nonce: nonce.to_vec(),
            aad: aad.to_vec(),
            pt,
            ct,
        };
        m.aead_log.push(call.clone());
        m.aead.push(call);
        Ok(tag)
    }

    fn decrypt_in_place_detached(
        &self,
        nonce: &Nonce<NonceSize>,
        aad: &[u8],
        buffer: &mut [u8],
        tag: &Tag,
    ) -> Result<(), Error> {
        let _w = psym::Pause::new();
        let m = get();
        if let Some(pt) = &m.aead_open {
            if pt.len() == buffer.len() {
                buffer.copy_from_slice(pt);
                return Ok(());
            }
        }
        for c in m.aead.iter() {
            if c.ct.len() != buffer.len() + 16
                || c.key.len() != self.key.len()
                || c.nonce.len() != nonce.len()
                || c.aad.len() != aad.len()
            {
                continue;
            }
            let k = same(&c.key, &self.key)
                & same(&c.nonce, nonce)
                & same(&c.aad, aad)
                & same(&c.ct[..buffer.len()], buffer)
                & same(&c.ct[buffer.len()..], tag);
            if k {
                buffer.copy_from_slice(&c.pt);
                return Ok(());
            }
        }
        Err(Error)
    }
}
