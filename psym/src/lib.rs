//! The harness interface.  Symbolically the engine supplies these functions; natively
//! `native.c` supplies them from a recorded list of inputs.
use std::mem::MaybeUninit;

mod raw {
    extern "C" {
        pub fn psym_is_engine() -> u32;
        pub fn psym_done() -> !;
        pub fn psym_bytes(p: *mut u8, len: usize, name: *const u8, nl: usize);
        pub fn psym_choice(n: u32, name: *const u8, nl: usize) -> u32;
        pub fn psym_assume(c: bool);
        pub fn psym_assert(c: bool, m: *const u8, ml: usize);
        pub fn psym_reach(m: *const u8, ml: usize);
        pub fn psym_merge(x: u32) -> u32;
        pub fn psym_concretize(x: u64) -> u64;
        pub fn psym_concretize_bytes(p: *mut u8, n: usize);
        pub fn psym_is_symbolic(p: *const u8, n: usize) -> u32;
        pub fn psym_param(name: *const u8, nl: usize, d: u64) -> u64;
        pub fn psym_trace(p: *const u8, n: usize);
        pub fn psym_mark_secret(p: *const u8, n: usize);
        pub fn psym_watch_secrets(on: u32) -> u32;
        pub fn psym_secrets_left() -> u32;
        pub fn psym_depends_secret(p: *const u8, n: usize) -> u32;
        pub fn psym_try(f: extern "C" fn(*mut u8), arg: *mut u8) -> i32;
        pub fn psym_faults(budget: u32, kinds: u32);
        pub fn psym_fs_read(p: *const u8, pl: usize, b: *mut u8, cap: usize) -> usize;
        pub fn psym_fs_write(p: *const u8, pl: usize, b: *const u8, n: usize);
        pub fn psym_fs_list(b: *mut u8, cap: usize) -> usize;
        pub fn psym_fs_remove(p: *const u8, pl: usize);
        pub fn psym_fs_mkdir(p: *const u8, pl: usize);
        pub fn psym_stdin(b: *const u8, n: usize);
        pub fn psym_args(n: i32, v: *const *const u8);
        pub fn psym_stdout(which: u32, b: *mut u8, cap: usize) -> usize;
    }
}

/// True inside the symbolic engine.
pub fn is_engine() -> bool {
    unsafe { raw::psym_is_engine() != 0 }
}
/// `len` arbitrary bytes.
pub fn bytes(len: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; len];
    fill(&mut v, name);
    v
}
/// Makes the buffer arbitrary.
pub fn fill(b: &mut [u8], name: &str) {
    unsafe { raw::psym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
/// An arbitrary byte.
pub fn byte(name: &str) -> u8 {
    let mut b = [0u8];
    fill(&mut b, name);
    b[0]
}
/// An arbitrary integer below n, one path for each.
pub fn choice(n: u32, name: &str) -> u32 {
    if n == 1 {
        return 0;
    }
    unsafe { raw::psym_choice(n, name.as_ptr(), name.len()) }
}
/// Restricts what follows to inputs with `c`.
pub fn assume(c: bool) {
    unsafe { raw::psym_assume(c) }
}
/// What the solver has to show.
pub fn check(c: bool, msg: &str) {
    unsafe { raw::psym_assert(c, msg.as_ptr(), msg.len()) }
}
/// A point that some path must come to (guard against vacuous harnesses).
pub fn reach(msg: &str) {
    unsafe { raw::psym_reach(msg.as_ptr(), msg.len()) }
}
/// Runs `f` with two-way branches joined again where both sides meet (limit: number of
/// instructions a side may take).
pub fn merged<T>(limit: u32, f: impl FnOnce() -> T) -> T {
    let old = unsafe { raw::psym_merge(limit) };
    let r = f();
    unsafe { raw::psym_merge(old) };
    r
}
pub fn merge(limit: u32) -> u32 {
    unsafe { raw::psym_merge(limit) }
}
/// A path for each outcome, decided here and not later.
#[inline(never)]
pub fn fork(c: bool) -> bool {
    unsafe { raw::psym_concretize(c as u64) != 0 }
}
/// One path per value.
pub fn concretize(x: usize) -> usize {
    unsafe { raw::psym_concretize(x as u64) as usize }
}
pub fn concretize_bytes(b: &mut [u8]) {
    unsafe { raw::psym_concretize_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn is_symbolic(b: &[u8]) -> bool {
    unsafe { raw::psym_is_symbolic(b.as_ptr(), b.len()) != 0 }
}
/// A bound chosen by the driver.
pub fn param(name: &str, default: u64) -> u64 {
    unsafe { raw::psym_param(name.as_ptr(), name.len(), default) }
}
/// Records a value for comparing the engine with the native run.
pub fn trace(b: &[u8]) {
    unsafe { raw::psym_trace(b.as_ptr(), b.len()) }
}
/// From here on these bytes (eight of them in a row, if there are as many) are looked for in
/// memory while secrets are watched.
pub fn mark_secret(b: &[u8]) {
    unsafe { raw::psym_mark_secret(b.as_ptr(), b.len()) }
}
/// While on, memory given back must not hold secrets.  Returns what it was before.
pub fn watch_secrets(on: bool) -> bool {
    unsafe { raw::psym_watch_secrets(on as u32) != 0 }
}
/// Is there memory, allocated while secrets were watched, that holds one?
pub fn secrets_left() -> bool {
    unsafe { raw::psym_secrets_left() != 0 }
}
/// Secrets are not watched while this exists (models and harnesses keep what they like).
pub struct Pause(bool);
impl Pause {
    pub fn new() -> Pause {
        Pause(watch_secrets(false))
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        watch_secrets(self.0);
    }
}
/// True if some byte depends on a secret (engine) / contains one (native).
pub fn depends_secret(b: &[u8]) -> bool {
    unsafe { raw::psym_depends_secret(b.as_ptr(), b.len()) != 0 }
}

/// How a guarded call ended.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Outcome<T> {
    Done(T),
    Panic,
    Crash,
    Exit(i32),
}

/// Runs `f`; a panic, an injected crash or an exit ends `f` only.
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Outcome<T> {
    struct Slot<T, F> {
        f: Option<F>,
        r: MaybeUninit<T>,
    }
    extern "C" fn tramp<T, F: FnOnce() -> T>(p: *mut u8) {
        let s = unsafe { &mut *(p as *mut Slot<T, F>) };
        let f = s.f.take().unwrap();
        s.r = MaybeUninit::new(f());
    }
    let mut s = Slot::<T, F> {
        f: Some(f),
        r: MaybeUninit::uninit(),
    };
    let code = unsafe { raw::psym_try(tramp::<T, F>, &mut s as *mut _ as *mut u8) };
    match code {
        0 => Outcome::Done(unsafe { s.r.assume_init() }),
        1 => Outcome::Panic,
        2 => Outcome::Crash,
        c => Outcome::Exit(c - 100),
    }
}

pub const FAULT_ERR: u32 = 1;
pub const FAULT_SHORT: u32 = 2;
pub const FAULT_CRASH: u32 = 4;
/// From here on up to `budget` file-system calls may fail in the given ways.
pub fn faults(budget: u32, kinds: u32) {
    unsafe { raw::psym_faults(budget, kinds) }
}

/// Sets the command line arguments, the name of the program first.
pub fn args(a: &[&str]) {
    let mut v = vec![];
    for s in a {
        let mut b = s.as_bytes().to_vec();
        b.push(0);
        v.push(b.leak().as_ptr());
    }
    let n = v.len() as i32;
    v.push(std::ptr::null());
    unsafe { raw::psym_args(n, v.leak().as_ptr()) }
}

pub mod fs {
    use super::raw;
    /// Contents of a file; None if there is none (or it is a directory).
    pub fn read(p: &str) -> Option<Vec<u8>> {
        let n = unsafe { raw::psym_fs_read(p.as_ptr(), p.len(), std::ptr::null_mut(), 0) };
        if n >= usize::MAX - 1 {
            return None;
        }
        let mut v = vec![0u8; n];
        unsafe { raw::psym_fs_read(p.as_ptr(), p.len(), v.as_mut_ptr(), n) };
        Some(v)
    }
    pub fn write(p: &str, d: &[u8]) {
        unsafe { raw::psym_fs_write(p.as_ptr(), p.len(), d.as_ptr(), d.len()) }
    }
    /// The paths of all files there are.
    pub fn list() -> Vec<String> {
        let mut v = vec![0u8; 1 << 12];
        let n = unsafe { raw::psym_fs_list(v.as_mut_ptr(), v.len()) };
        v.truncate(n);
        v.split(|c| *c == b'\n').filter(|l| !l.is_empty()).map(|l| String::from_utf8_lossy(l).into_owned()).collect()
    }
    pub fn remove(p: &str) {
        unsafe { raw::psym_fs_remove(p.as_ptr(), p.len()) }
    }
    pub fn mkdir(p: &str) {
        unsafe { raw::psym_fs_mkdir(p.as_ptr(), p.len()) }
    }
    pub fn stdin(d: &[u8]) {
        unsafe { raw::psym_stdin(d.as_ptr(), d.len()) }
    }
    /// Takes what was written to stdout (1) or stderr (2) so far.
    pub fn output(which: u32) -> Vec<u8> {
        let mut v = vec![0u8; 1 << 16];
        let n = unsafe { raw::psym_stdout(which, v.as_mut_ptr(), v.len()) };
        v.truncate(n);
        v
    }
}

/// State shared by the models of cryptography and randomness.
pub mod model {
    /// A well-spread concrete stream for model outputs.
    pub fn mix(mut z: u64) -> u64 {
        z = z.wrapping_add(0x9e3779b97f4a7c15);
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn stream(domain: u64, index: u64, out: &mut [u8]) {
        for (i, b) in out.iter_mut().enumerate() {
            *b = (mix(domain << 48 ^ index << 16 ^ (i as u64 / 8)) >> (8 * (i % 8))) as u8;
        }
    }
    /// Equality as one value, so that a symbolic comparison is one branch.
    pub fn same(a: &[u8], b: &[u8]) -> bool {
        if a.len() != b.len() {
            return false;
        }
        let mut d = 0u8;
        for i in 0..a.len() {
            d |= a[i] ^ b[i];
        }
        d == 0
    }

    #[derive(Clone)]
    pub struct ScryptCall {
        pub password: Vec<u8>,
        pub salt: Vec<u8>,
        pub log_n: u8,
        pub r: u32,
        pub p: u32,
        pub len: usize,
        pub out: Vec<u8>,
    }
    #[derive(Clone)]
    pub struct AeadCall {
        pub key: Vec<u8>,
        pub nonce: Vec<u8>,
        pub aad: Vec<u8>,
        pub pt: Vec<u8>,
        pub ct: Vec<u8>,
    }
    #[derive(Clone)]
    pub struct HmacCall {
        pub key: Vec<u8>,
        pub data: Vec<u8>,
        pub out: Vec<u8>,
    }
    pub struct Models {
        /// recorded calls, in order (the tables of the ideal functions)
        pub scrypt: Vec<ScryptCall>,
        pub scrypt_log: Vec<ScryptCall>,
        pub aead: Vec<AeadCall>,
        pub aead_log: Vec<AeadCall>,
        pub hmac: Vec<HmacCall>,
        /// outputs are arbitrary (symbolic) bytes instead of concrete distinct ones
        pub scrypt_symbolic: bool,
        pub aead_symbolic: bool,
        /// modules of QR codes (column, row, value) and the QR codes made
        pub qr_modules: Vec<(usize, usize, u8)>,
        pub qr_log: Vec<(Vec<u8>, Vec<u8>)>,
        /// words the random generator returns first
        pub rng_queue: Vec<u32>,
        pub rng_pos: usize,
        pub rng_words: u64,
        pub entropy: Vec<Vec<u8>>,
        /// accept any 16-byte tag: decryption returns these bytes (arbitrary stored data)
        pub aead_open: Option<Vec<u8>>,
    }
    const FRESH: Models = Models {
        scrypt: vec![],
        scrypt_log: vec![],
        aead: vec![],
        aead_log: vec![],
        hmac: vec![],
        scrypt_symbolic: false,
        aead_symbolic: false,
        qr_modules: vec![],
        qr_log: vec![],
        rng_queue: vec![],
        rng_pos: 0,
        rng_words: 0,
        entropy: vec![],
        aead_open: None,
    };
    static mut MODELS: Models = FRESH;
    /// Forgets everything, as in a new process with the same random numbers.
    pub fn restart() {
        *get() = FRESH;
    }
    pub fn get() -> &'static mut Models {
        unsafe { &mut *std::ptr::addr_of_mut!(MODELS) }
    }
    /// Next word of true randomness.
    pub fn rng_word() -> u32 {
        let m = get();
        m.rng_words += 1;
        if m.rng_pos < m.rng_queue.len() {
            m.rng_pos += 1;
            return m.rng_queue[m.rng_pos - 1];
        }
        mix(0x7261_6e64_0000_0000 + m.rng_words) as u32
    }
}
/// Ends a native run: nothing of the tested process counts any more.
pub fn done() -> ! {
    unsafe { raw::psym_done() }
}
