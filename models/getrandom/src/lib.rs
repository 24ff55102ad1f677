//! The operating system's randomness as the harness supplies it.
use psym::model::{get, rng_word, stream};
use std::fmt;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("random source failure")
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Self(code)
    }
}
impl From<Error> for std::io::Error {
    fn from(_: Error) -> Self {
        std::io::ErrorKind::Other.into()
    }
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let m = get();
    if dest.len() == 32 {
        // a generator seed: remembered, so that a generator seeded with it counts as random
        stream(0x67, m.entropy.len() as u64, dest);
        m.entropy.push(dest.to_vec());
    } else {
        for c in dest.chunks_mut(4) {
            let w = rng_word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    Ok(())
}
