//! Generated passwords.
use crate::io::{MemIO, Shared};
use crate::rec::arbitrary_text;
use crate::store::letters;
use crate::util::*;
use pfp::passwords::Passwords;
use psym::{bytes, check, choice, param, reach};
use secrecy::ExposeSecret;

/// The documented alphabets, written down independently of the implementation.
const SETS: [&[u8]; 4] = [
    b"abcdefghjkmnpqrstuvwxyz",
    b"ABCDEFGHJKMNPQRSTUVWXYZ",
    b"23456789",
    b"!#$%&()*+,-./:;<=>?@[]^_{|}~",
];

/// Bit set of the character types a byte belongs to (table, so that no branch is needed).
fn class_table() -> [u8; 256] {
    let mut t = [0u8; 256];
    for (i, s) in SETS.iter().enumerate() {
        for &c in s.iter() {
            t[c as usize] = 1 << i;
        }
    }
    t
}

/// The password the PfP algorithm produces from the derived bytes: every byte selects a
/// character of the union alphabet modulo its size; once only as many characters are left
/// as character sets are still missing, only the missing sets are used.
fn reference(bytes: &[u8], sets: u32) -> Vec<u8> {
    // alphabet of every subset of the character sets
    let mut alphabet: Vec<Vec<u8>> = vec![vec![]];
    for s in 1..16u32 {
        let mut a = vec![];
        for i in 0..4 {
            if s >> i & 1 == 1 {
                a.extend_from_slice(SETS[i as usize]);
            }
        }
        alphabet.push(a);
    }
    let class = class_table();
    let n = bytes.len();
    let mut out = vec![];
    let mut seen = 0u32;
    for i in 0..n {
        let missing = sets & !seen;
        let mut pick = 0u8;
        // one case per possible value of `missing`
        for m in 0..16u32 {
            if m & !sets != 0 {
                continue;
            }
            let forced = m.count_ones() as usize >= n - i && m != 0;
            let a = &alphabet[if forced { m } else { sets } as usize];
            let mut map = [0u8; 256];
            for b in 0..256 {
                map[b] = a[b % a.len()];
            }
            let v = map[bytes[i] as usize];
            let hit = ((missing == m) as u8).wrapping_neg();
            pick |= v & hit;
        }
        seen |= class[pick as usize] as u32;
        out.push(pick);
    }
    out
}

pub fn h_password() {
    let n = param("n", 6) as usize;
    let cs = match param("charset", 0) {
        0 => choice(15, "charset") + 1,
        c => c as u32,
    };
    let mut p = Passwords::new(MemIO::new());
    p.reset(secret("primary")).unwrap();
    p.set_generated("example.com", "me", "1", n, charset(cs)).unwrap();
    psym::model::get().scrypt_symbolic = true;
    let got = psym::merged(4000, || p.get("example.com", "me", "1").unwrap());
    let got = got.expose_secret().as_bytes();
    let call = psym::model::get().scrypt_log.last().unwrap().clone();
    check(call.out.len() == n, "as many derived bytes as characters");
    check(got.len() == n, "password has the requested length");
    let want = reference(&call.out, cs);
    let class = class_table();
    let mut seen = 0u8;
    let mut ok = true;
    let mut same = 0u8;
    for i in 0..n {
        let c = class[got[i] as usize];
        ok &= c as u32 & cs != 0;
        seen |= c;
        same |= got[i] ^ want[i];
    }
    check(ok, "only characters of the chosen sets");
    if n as u32 >= cs.count_ones() {
        check(seen as u32 == cs, "every chosen set occurs");
    }
    check(same == 0, "password equals the PfP algorithm's result");
    psym::trace(got);
    reach("password compared");
}

fn choice_text(n: usize, name: &str) -> String {
    if param("any", 0) == (if name == "site" { 1 } else { 2 }) {
        // any other ASCII characters as well, but no NUL
        return arbitrary_text(n, 0, name);
    }
    text(&letters(n, name))
}

/// A generated password comes from the primary password, the site, the name and the revision
/// alone, by way of scrypt; its length and characters from what was asked for.
pub fn h_derive() {
    let np = param("np", 4) as usize;
    let primary = pad(param("lp", 0)) + &arbitrary_text(np, param("mode", 0), "primary password");
    let site = pad(param("ls", 0)) + &choice_text(param("ns", 3) as usize, "site");
    let name = pad(param("ln", 0)) + &choice_text(param("nn", 2) as usize, "name");
    let nr = param("nr", 1) as usize;
    // any revision, "1" among them
    let any = param("any", 0) == 3;
    let rev = if any { arbitrary_text(nr, 0, "revision") } else { String::new() };
    let nr = if any { 0 } else { nr };
    let rev = rev + &pad(param("lr", 0)) + &text(&bytes(nr, "revision").iter().map(|&b| b"0123456789abcdefghijklmnopqrst.-"[b as usize & 31]).collect::<Vec<u8>>());
    let (len, cs) = if param("any", 0) > 0 { (8, 15) } else { (2 + choice(4, "length") as usize * 21, 1 + choice(15, "charset")) };
    let len = if param("short", 1) == 1 { len.min(6) } else { len };
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret(&primary)).is_ok(), "reset");
    let via = choice(4, "addressed by");
    let mut www = String::from("www.");
    www.push_str(&site);
    if via == 2 {
        check(p.set_alias("alias.example", &site).is_ok(), "set_alias");
    }
    let addr: &str = match via {
        1 => &www,
        2 => "www.alias.example",
        _ => &site,
    };
    check(p.set_generated(addr, &name, &rev, len, charset(cs)).is_ok(), "set_generated");
    if via == 3 {
        // somewhere else, where there is another salt and there are other entries
        p = Passwords::new(Shared::new());
        check(p.reset(secret(&primary)).is_ok(), "reset");
        check(p.set_stored(&site, &name, &rev, secret("abc")).is_ok(), "set_stored");
        check(p.set_notes(&site, &name, &rev, secret("some notes")).is_ok(), "set_notes");
        check(p.set_generated("elsewhere.example", &name, &rev, len, charset(cs)).is_ok(), "set_generated");
        check(p.set_generated(&site, &name, &rev, len, charset(cs)).is_ok(), "set_generated");
        check(p.set_notes(&site, &name, &rev, secret("other notes")).is_ok(), "set_notes");
    }
    psym::model::get().scrypt_log.clear();
    let got = match p.get(addr, &name, &rev) {
        Ok(x) => x,
        Err(_) => {
            check(false, "the password can be generated");
            return;
        }
    };
    let mut salt = site.clone().into_bytes();
    salt.push(0);
    salt.extend_from_slice(name.as_bytes());
    let first = rev.len() == 0 || rev.len() == 1 && psym::fork(rev.as_bytes()[0] == b'1');
    if !first {
        salt.push(0);
        salt.extend_from_slice(rev.as_bytes());
        reach("with revision");
    }
    let log = &psym::model::get().scrypt_log;
    check(log.len() >= 1, "scrypt is used");
    let c = &log[log.len() - 1];
    check(c.log_n == 15 && c.r == 8 && c.p == 1, "scrypt parameters are N=32768, r=8, p=1");
    check(c.password.len() == primary.len() && same(&c.password, primary.as_bytes()), "derived from the primary password");
    check(c.salt.len() == salt.len() && same(&c.salt, &salt), "salted with site, name and revision");
    check(c.out.len() == len, "as many bytes derived as there are characters");
    let want = reference(&c.out, cs);
    check(got.expose_secret().len() == len && same(got.expose_secret().as_bytes(), &want), "the password is made of the derived bytes");
    reach("derived");
}
