use pfp::storage_types::{CharacterSet, CharacterType};
use secrecy::SecretString;

pub fn secret(s: &str) -> SecretString {
    SecretString::new(s.to_string())
}
pub fn secret_bytes(b: &[u8]) -> SecretString {
    SecretString::new(text(b))
}
/// A string of the given (ASCII) bytes, built without a validity check of each byte.
pub fn text(b: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// Character set from bits: 1 lower, 2 upper, 4 digit, 8 symbol.
pub fn charset(bits: u32) -> CharacterSet {
    let mut set = CharacterSet::empty();
    let all = [
        CharacterType::Lower,
        CharacterType::Upper,
        CharacterType::Digit,
        CharacterType::Symbol,
    ];
    for i in 0..4 {
        if bits >> i & 1 == 1 {
            set.insert(all[i]);
        }
    }
    set
}
/// Equality as one value.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    psym::model::same(a, b)
}
/// `n` characters, for something long.
pub fn pad(n: u64) -> String {
    (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyz234567"[psym::model::mix(i) as usize & 31] as char).collect()
}
/// Something long with the given end, or the given alone.
pub fn padded(n: u64, end: &[u8]) -> Vec<u8> {
    let mut v = pad(n).into_bytes();
    v.extend_from_slice(end);
    v
}
