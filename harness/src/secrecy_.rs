//! What the stored data gives away, and what it is protected with.
use crate::io::Shared;
use crate::model::*;
use crate::rec::arbitrary_text;
use crate::store::*;
use crate::util::*;
use pfp::passwords::Passwords;
use pfp::storage_types::StoredPassword;
use psym::model::Models;
use psym::{bytes, check, choice, param, reach};

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(x: &[u8]) -> String {
    let mut s = String::new();
    for c in x.chunks(3) {
        let v = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (v[0] as usize) << 16 | (v[1] as usize) << 8 | v[2] as usize;
        for i in 0..4 {
            if i <= c.len() {
                s.push(B64[n >> (18 - 6 * i) & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let (mut acc, mut bits) = (0usize, 0);
    for c in s.bytes() {
        if c == b'=' {
            break;
        }
        acc = acc << 6 | B64.iter().position(|&x| x == c)?;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

/// The encryption key must be what scrypt makes of the primary password and the salt.
pub fn check_key(m: &Models, key: &[u8], primary: &[u8], salt: &[u8]) {
    // bytes of the salt are characters U+0000 to U+00FF
    let mut s = String::new();
    for &b in salt {
        s.push(b as char);
    }
    let c = m.scrypt_log.iter().find(|c| c.len == 32 && c.out.len() == 32 && c.out == key);
    match c {
        None => check(false, "data is encrypted with a key scrypt derived"),
        Some(c) => {
            check(c.log_n == 15 && c.r == 8 && c.p == 1, "scrypt parameters of the key are N=32768, r=8, p=1");
            check(c.password.len() == primary.len() && same(&c.password, primary), "the key comes from the primary password");
            check(c.salt == s.as_bytes(), "the key is salted with the stored salt");
        }
    }
}

/// Everything stored is the salt, or encrypted with authentication under the key; the keys
/// of the entries are keyed hashes.
fn check_stored(io: Shared, primary: &[u8]) {
    let m = psym::model::get();
    let salt = match io.value("salt").and_then(|s| unb64(&s)) {
        Some(s) => s,
        None => {
            check(false, "the salt is stored");
            return;
        }
    };
    check(salt.len() >= 16, "the salt has at least 16 bytes");
    let mut hmac_key: Option<Vec<u8>> = None;
    let mut seen: Vec<&String> = vec![];
    for (k, v) in io.it().data.iter() {
        if k == "salt" {
            continue;
        }
        check(!seen.contains(&v), "no two values are the same");
        seen.push(v);
        let call = m.aead_log.iter().find(|c| {
            let mut w = b64(&c.nonce);
            w.push('_');
            w.push_str(&b64(&c.ct));
            w == *v
        });
        match call {
            None => check(false, "what is stored is encrypted"),
            Some(c) => check_key(m, &c.key, primary, &salt),
        }
        if k == "hmac-secret" {
            continue;
        }
        // site:DIGEST or site:DIGEST:DIGEST
        let parts: Vec<&str> = k.split(':').collect();
        check((parts.len() == 2 || parts.len() == 3) && parts[0] == "site", "entries are stored under site:...");
        for part in &parts[1..] {
            match m.hmac.iter().find(|h| b64(&h.out) == *part) {
                None => check(false, "names are stored as keyed hashes"),
                Some(h) => {
                    check(h.key.len() >= 32, "the key of the hash has at least 32 bytes");
                    check(h.out.len() == 32, "the hash has 32 bytes");
                    match &hmac_key {
                        None => hmac_key = Some(h.key.clone()),
                        Some(x) => check(*x == h.key, "all names are hashed with the same key"),
                    }
                }
            }
        }
    }
    // the key of the hashes is random, and stored encrypted
    if let Some(key) = hmac_key {
        let text = b64(&key);
        let has = m.aead_log.iter().any(|c| {
            c.pt.len() == text.len() + 2 && c.pt[1..c.pt.len() - 1] == *text.as_bytes()
        });
        check(has, "the key of the hashes is what is stored as the secret");
    }
}

fn once(setup_no: u64, op: u32, args: (usize, usize, usize), recovery: bool) -> (Shared, Vec<u8>, String) {
    let w = World::new();
    let primary = arbitrary_text(4, 0, "primary password");
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret(&primary)).is_ok(), "reset");
    let mut m = Ref::default();
    setup(&mut p, io, &mut m, &w, setup_no);
    if op != RELOCK {
        step(&mut p, io, &mut m, &w, op, Some(args));
    }
    let mut code = String::new();
    if recovery {
        let pw = letters(4, "password");
        let sp = StoredPassword::new(&text(&w.sites[0]), "me", "1", secret_bytes(&pw));
        match p.get_recovery_code(&sp) {
            Ok(c) => code = c,
            Err(_) => check(false, "get_recovery_code"),
        }
    }
    (io, primary.into_bytes(), code)
}

/// What is stored is the same whatever the passwords, names and notes are.
pub fn h_confidential() {
    let op = choice(RELOCK + 1, "operation");
    let args = if op == RELOCK { (0, 0, 0) } else { arguments(3, op) };
    let setup_no = param("setup", 0);
    let recovery = choice(2, "recovery code") == 1;
    let (io1, p1, c1) = once(setup_no, op, args, recovery);
    check_stored(io1, &p1);
    let m = psym::model::get();
    if recovery {
        // the code holds what was encrypted last, under the storage's key
        match m.aead_log.last() {
            Some(c) => {
                let salt = io1.value("salt").and_then(|s| unb64(&s)).unwrap_or(vec![]);
                check_key(m, &c.key, &p1, &salt);
            }
            None => check(false, "a recovery code is encrypted"),
        }
    }
    psym::model::restart();
    let (io2, _, c2) = once(setup_no, op, args, recovery);
    let (a, b) = (&io1.it().data, &io2.it().data);
    check(a.len() == b.len(), "as many entries whatever the secrets are");
    for i in 0..a.len() {
        check(a[i].0.len() == b[i].0.len() && same(a[i].0.as_bytes(), b[i].0.as_bytes()), "stored keys don't depend on secrets");
        check(a[i].1.len() == b[i].1.len() && same(a[i].1.as_bytes(), b[i].1.as_bytes()), "stored values don't depend on secrets");
    }
    check(c1.len() == c2.len() && same(c1.as_bytes(), c2.as_bytes()), "the recovery code doesn't depend on secrets other than by encryption");
    reach("compared");
}

/// Random numbers as bytes (below 128, if asked for), repeated over the whole word.
fn arbitrary_words(n: usize, low: bool) -> Vec<u8> {
    let mut b = bytes(n, "random");
    if low {
        for x in b.iter_mut() {
            *x &= 0x7f;
        }
    }
    let m = psym::model::get();
    m.rng_queue = b.iter().map(|&x| u32::from_le_bytes([x; 4])).collect();
    m.rng_pos = 0;
    b
}
/// `act` makes a value of random numbers: two values are the same only if all the random
/// numbers used for them were.
fn injective<S>(low: bool, want: usize, what: &str, make: impl Fn() -> S, act: impl Fn(&mut S) -> Vec<u8>) {
    const MAX: usize = 96;
    let m = psym::model::get();
    let mut s = make();
    let a = arbitrary_words(MAX, low);
    let x = act(&mut s);
    let used = m.rng_pos;
    m.rng_queue = vec![];
    m.rng_pos = 0;
    let mut s = make();
    let b = arbitrary_words(MAX, low);
    let y = act(&mut s);
    let used2 = m.rng_pos;
    m.rng_queue = vec![];
    m.rng_pos = 0;
    check(x.len() == want && y.len() == want, what);
    // the generator makes two words at a time, one may be left from before
    check(used <= used2 + 1 && used2 <= used + 1, "as much randomness every time");
    // a byte to the word, or four
    check(used * 4 + 4 >= want && used < MAX, "enough randomness is used");
    let need = if used + 1 >= want { want.min(used) } else { (want + 3) / 4 - 1 };
    let all = if used == need {
        same(&a[..used], &b[..used])
    } else {
        let mut n = 0usize;
        for i in 0..used {
            n += (a[i] == b[i]) as usize;
        }
        n >= need
    };
    check(!same(&x, &y) | all, "all randomness ends up in the value");
    reach("compared");
}

fn with_storage() -> (Shared, Passwords<Shared>) {
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret("primary")).is_ok(), "reset");
    check(p.set_stored("example.com", "me", "1", secret("abc")).is_ok(), "set_stored");
    (io, p)
}
fn last_nonce() -> Vec<u8> {
    psym::model::get().aead_log.last().map(|c| c.nonce.clone()).unwrap_or(vec![])
}

/// Nonces, salts and secrets are random, in all of their bytes.
pub fn h_random() {
    let nonce = "the nonce has 96 bits";
    match choice(7, "value") {
        0 => injective(false, 12, nonce, with_storage, |s| {
            check(s.1.set_stored("example.com", "me", "1", secret("xyz")).is_ok(), "set_stored");
            last_nonce()
        }),
        1 => injective(false, 12, nonce, with_storage, |s| {
            check(s.1.set_generated("example.com", "me", "2", 8, charset(15)).is_ok(), "set_generated");
            last_nonce()
        }),
        2 => injective(false, 12, nonce, with_storage, |s| {
            check(s.1.set_notes("example.com", "me", "1", secret("xyz")).is_ok(), "set_notes");
            last_nonce()
        }),
        3 => injective(false, 12, nonce, with_storage, |s| {
            check(s.1.set_alias("a.example", "example.com").is_ok(), "set_alias");
            last_nonce()
        }),
        4 => injective(false, 12, nonce, with_storage, |s| {
            let sp = StoredPassword::new("example.com", "me", "1", secret("abc"));
            check(s.1.get_recovery_code(&sp).is_ok(), "get_recovery_code");
            last_nonce()
        }),
        // a new beginning, from an instance where the old storage is unlocked or locked
        5 => {
            let drawn = |s: &mut (Shared, Passwords<Shared>)| {
                let m = psym::model::get();
                let salt = m.scrypt_log.last().map(|c| c.salt.clone()).unwrap_or(vec![]);
                let _ = s.1.has("example.com", "me", "1");
                (salt, m.hmac.last().map(|c| c.key.clone()).unwrap_or(vec![]))
            };
            let mut s = with_storage();
            let a = drawn(&mut s);
            if choice(2, "locked") == 1 {
                s.1.lock();
            }
            check(s.1.reset(secret("primary")).is_ok(), "reset");
            let b = drawn(&mut s);
            check(b.0.len() >= 16 && b.1.len() == 32, "salt and secret have 16 and 32 bytes");
            check(a.0 != b.0, "a storage created anew has a salt of its own");
            check(a.1 != b.1, "a storage created anew has a secret of its own");
            reach("compared");
        }
        // salt, key of the hashes and the nonce for that: every byte of each
        _ => injective(true, 60, "salt, secret and nonce have 16, 32 and 12 bytes", with_storage, |s| {
            check(s.1.reset(secret("primary")).is_ok(), "reset");
            // the salt as scrypt sees it: characters U+0000 to U+00FF
            let m = psym::model::get();
            let mut v = m.scrypt_log.last().map(|c| c.salt.clone()).unwrap_or(vec![]);
            let _ = s.1.has("example.com", "me", "1");
            v.extend(m.hmac.last().map(|c| c.key.clone()).unwrap_or(vec![]));
            v.extend(last_nonce());
            v
        }),
    }
}

/// Over a history of operations no nonce is used twice.
pub fn h_nonces() {
    let w = World::new();
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret("primary")).is_ok(), "reset");
    let mut m = Ref::default();
    setup(&mut p, io, &mut m, &w, param("setup", 0));
    for _ in 0..param("ops", 2) {
        let op = choice(RELOCK + 2, "operation");
        match op {
            RELOCK => {
                // another process, in which nothing is remembered
                p = Passwords::new(io.reopen());
                check(p.unlock(secret("primary")).is_ok(), "unlock");
            }
            8 => {
                let sp = StoredPassword::new(&text(&w.sites[0]), "me", "1", secret("abc"));
                check(p.get_recovery_code(&sp).is_ok(), "get_recovery_code");
            }
            REMOVE | REMOVE_ALIAS | REMOVE_SITE => {}
            _ => {
                let args = (0, 1, 0);
                let _ = match op {
                    SET_GENERATED => p.set_generated(&text(&w.sites[args.0]), "me", "1", 9, charset(3)),
                    SET_STORED => p.set_stored(&text(&w.sites[args.0]), "me", "1", secret("abc")),
                    SET_NOTES => p.set_notes(&text(&w.sites[args.0]), &text(&w.names[0]), "1", secret("abc")),
                    _ => p.set_alias(&text(&w.sites[0]), &text(&w.sites[1])),
                };
            }
        }
    }
    let log = &psym::model::get().aead_log;
    for i in 0..log.len() {
        check(log[i].nonce.len() == 12, "nonces have 96 bits");
        for j in 0..i {
            check(log[i].nonce != log[j].nonce, "no nonce is used twice");
        }
    }
    reach("compared");
}
