//! Symbolic harnesses over the public interface of the pfp crate.
mod file;
mod format;
mod gen;
mod io;
mod listing;
mod lock;
mod model;
mod rec;
mod secrecy_;
mod store;
mod util;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $(#[no_mangle]
        #[inline(never)]
        pub extern "C" fn $f() { $m::$f() })*
        fn table() -> Vec<(&'static str, extern "C" fn())> {
            vec![$((stringify!($f), $f as extern "C" fn())),*]
        }
    };
}
entries! {
    gen::h_password,
    rec::h_recovery_roundtrip,
    rec::h_recovery_damage,
    rec::h_format,
    file::h_file,
    file::h_faults,
    file::h_first,
    file::h_values,
    file::h_header,
    file::h_layout,
    file::h_broken,
    format::h_foreign,
    format::h_written,
    format::h_text,
    format::h_garbage,
    format::h_tampered,
    format::h_misfit,
    format::h_impossible,
    format::h_keys,
    rec::h_long,
    listing::h_list,
    listing::h_list_sites,
    gen::h_derive,
    secrecy_::h_confidential,
    secrecy_::h_random,
    secrecy_::h_nonces,
    lock::h_lock,
    lock::h_reset,
    lock::h_forget,
    store::h_history,
    rec::h_decode_any,
}

fn main() {
    let want = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in table() {
        if n == want {
            f();
            psym::done();
            return;
        }
    }
    std::process::exit(97);
}
