//! Ideal generator with the interface of rand_chacha 0.3: seeded with fresh entropy it
//! returns true randomness (as supplied by the harness), seeded with anything else a
//! stream determined by the seed.
pub use rand_core;
use psym::model::{get, mix, rng_word, same};
use rand_core::block::{BlockRng, BlockRngCore};
use rand_core::{CryptoRng, Error, RngCore, SeedableRng};

#[derive(Clone, Copy, Default, Debug)]
pub struct Words([u32; 2]);
impl AsRef<[u32]> for Words {
    fn as_ref(&self) -> &[u32] {
        &self.0
    }
}
impl AsMut<[u32]> for Words {
    fn as_mut(&mut self) -> &mut [u32] {
        &mut self.0
    }
}

macro_rules! chacha {
    ($core:ident, $rng:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct $core {
            fresh: bool,
            seed: u64,
            pos: u64,
        }
        impl BlockRngCore for $core {
            type Item = u32;
            type Results = Words;
            fn generate(&mut self, r: &mut Words) {
                for x in r.0.iter_mut() {
                    *x = self.word();
                }
            }
        }
        impl $core {
            fn word(&mut self) -> u32 {
                self.pos += 1;
                if self.fresh {
                    rng_word()
                } else {
                    mix(self.seed ^ self.pos) as u32
                }
            }
        }
        impl SeedableRng for $core {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self {
                let mut fresh = false;
                for e in get().entropy.iter() {
                    if e.len() == 32 && same(e, &seed) {
                        fresh = true;
                    }
                }
                let mut s = 1u64;
                for b in seed.iter() {
                    s = mix(s ^ *b as u64);
                }
                $core { fresh, seed: s, pos: 0 }
            }
        }
        impl CryptoRng for $core {}

        #[derive(Clone, Debug)]
        pub struct $rng {
            rng: BlockRng<$core>,
        }
        impl SeedableRng for $rng {
            type Seed = [u8; 32];
            fn from_seed(seed: [u8; 32]) -> Self {
                Self {
                    rng: BlockRng::new($core::from_seed(seed)),
                }
            }
        }
        impl RngCore for $rng {
            // word by word, so that no more randomness is used than asked for
            fn next_u32(&mut self) -> u32 {
                self.rng.core.word()
            }
            fn next_u64(&mut self) -> u64 {
                let lo = self.rng.core.word() as u64;
                lo | (self.rng.core.word() as u64) << 32
            }
            fn fill_bytes(&mut self, b: &mut [u8]) {
                for c in b.chunks_mut(4) {
                    let w = self.rng.core.word().to_le_bytes();
                    c.copy_from_slice(&w[..c.len()]);
                }
            }
            fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Error> {
                self.fill_bytes(b);
                Ok(())
            }
        }
        impl CryptoRng for $rng {}
        impl From<$core> for $rng {
            fn from(core: $core) -> Self {
                $rng {
                    rng: BlockRng::new(core),
                }
            }
        }
        impl PartialEq for $rng {
            fn eq(&self, o: &Self) -> bool {
                self.rng.core == o.rng.core
            }
        }
        impl Eq for $rng {}
    };
}
chacha!(ChaCha8Core, ChaCha8Rng);
chacha!(ChaCha12Core, ChaCha12Rng);
chacha!(ChaCha20Core, ChaCha20Rng);
pub type ChaChaRng = ChaCha20Rng;
pub type ChaChaCore = ChaCha20Core;
