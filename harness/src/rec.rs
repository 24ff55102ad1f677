//! Recovery codes.
use crate::io::MemIO;
use crate::util::*;
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::recovery_codes;
use pfp::storage_types::StoredPassword;
use psym::{assume, attempt, bytes, check, choice, param, reach, Outcome};
use secrecy::ExposeSecret;

const ALPHABET: &[u8; 32] = b"ABCDEFGHJKLMNPQRSTUVWXYZ23456789";

fn is_symbol_table() -> [u8; 256] {
    let mut t = [0u8; 256];
    for &c in ALPHABET.iter() {
        t[c as usize] = 1;
    }
    t
}

/// Reads the contents off a code the library generated: 24 symbols to the line.
fn symbols(code: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, &c) in code.iter().enumerate() {
        if i % 30 % 5 != 4 {
            out.push(c);
        }
    }
    out
}

/// Arbitrary random words: every draw of salt or nonce is arbitrary.  `class` says which of
/// the bytes are below 128: all, none, the even or the odd ones.
pub fn arbitrary_rng(n: usize, class: u32, name: &str) {
    let mut b = bytes(n, name);
    for i in 0..n {
        let high = match class {
            0 => false,
            1 => true,
            2 => i % 2 == 1,
            _ => i % 2 == 0,
        };
        b[i] = if high { b[i] | 0x80 } else { b[i] & 0x7f };
    }
    let m = psym::model::get();
    m.rng_queue = b.iter().map(|&x| u32::from_le_bytes([x, 0x5a, 0xc3, 0x11])).collect();
    m.rng_pos = 0;
}

/// Maps all bytes to those below 128, or to the others.
fn half(high: bool) -> [u8; 256] {
    let mut t = [0u8; 256];
    for i in 0..256 {
        t[i] = if high { i as u8 | 0x80 } else { i as u8 & 0x7f };
    }
    t
}

/// The checksum of a line: Pearson hash of its 14 bytes under the line number (counted from
/// the top of the byte range for the last line).
pub fn checksum(line: &[u8], virt: u8) -> u8 {
    let mut perm = [0u8; 256];
    for i in 0..256u32 {
        perm[i as usize] = ((i + 379) * 467) as u8;
    }
    let mut h = perm[virt as usize];
    for &b in line {
        h = perm[(h ^ b) as usize];
    }
    h
}

/// A password of `n` bytes: mode 0 any ASCII without NUL, mode 1 with a two-byte character
/// in front, 2 a three-byte one, 3 a four-byte one, 9 any ASCII with NUL except in the end.
pub fn arbitrary_text(n: usize, mode: u64, name: &str) -> String {
    let mut b = bytes(n, name);
    let lead = match mode {
        0 | 9 => 0,
        m => (m as usize + 1).min(n),
    };
    for i in 0..n {
        if i < lead && lead >= 2 {
            if i == 0 {
                b[i] = match lead {
                    2 => 0xc3,
                    3 => 0xe2,
                    _ => 0xf0,
                };
            } else {
                let lo = if i == 1 && lead == 4 { 0x90 } else { 0x80 };
                b[i] = lo | b[i] & 0x0f;
            }
        } else {
            b[i] &= 0x7f;
            assume((b[i] != 0) | ((mode == 9) & (i + 1 < n)));
        }
    }
    text(&b)
}

/// decode(generate(p)) == p, however the code is cased and punctuated.
pub fn h_recovery_roundtrip() {
    let n = param("n", 5) as usize;
    let mode = param("mode", 0);
    arbitrary_rng(100, choice(4, "bytes above 127"), "random");
    let mut p = Passwords::new(MemIO::new());
    p.reset(secret("primary")).unwrap();
    psym::model::get().aead_symbolic = true;
    let pw = arbitrary_text(n, mode, "password");
    let sp = StoredPassword::new("example.com", "me", "1", secret_bytes(pw.as_bytes()));
    let code = p.get_recovery_code(&sp).unwrap();
    let code = code.as_bytes();
    // shape: whole lines of 24 symbols, printed as AAAA-AAAA-AAAA:AAAA-AAAA-AAAA
    let payload = 45 + n;
    let lines = (payload + 13) / 14;
    check(code.len() == lines * 30 - 1, "code has as many lines as the data needs");
    let tab = is_symbol_table();
    let mut shape = true;
    for i in 0..code.len() {
        shape &= match i % 30 {
            29 => code[i] == b'\n',
            14 => code[i] == b':',
            k if k % 5 == 4 => code[i] == b'-',
            _ => tab[code[i] as usize] == 1,
        };
    }
    check(shape, "code is printed in groups of four symbols");
    // as typed in by a human: any letter may be in lower case, the punctuation gone or different
    let mut typed = vec![];
    let style = choice(4, "style");
    let case = choice(4, "case");
    let junk = b"-:\n 01OIoi.,;_~+/=\xc3\xa9\t";
    for i in 0..code.len() {
        if i % 5 == 4 {
            match style {
                0 => typed.push(code[i]),
                1 => {}
                2 => typed.extend_from_slice(if i % 30 == 29 { b"\r\n" } else { b" " }),
                _ => typed.extend_from_slice(junk),
            }
        } else {
            let c = code[i];
            let lower = match case {
                0 => false,
                1 => true,
                2 => i % 2 == 0,
                _ => i % 2 == 1,
            };
            typed.push(if lower { c | ((c >= b'A') as u8) << 5 } else { c });
        }
    }
    let typed = text(&typed);
    // decoded elsewhere: other storage, same primary password
    let mut q = Passwords::new(MemIO::new());
    psym::model::get().aead_symbolic = false;
    q.reset(secret("primary")).unwrap();
    let back = psym::merged(400, || q.decode_recovery_code(&typed));
    match back {
        Ok(b) => {
            check(same(b.expose_secret().as_bytes(), pw.as_bytes()), "decoding returns the password");
            reach("decoded");
        }
        Err(_) => check(false, "decoding succeeds"),
    }
    // and with the function that takes the primary password
    let back = psym::merged(400, || recovery_codes::decode(&typed, &secret("primary")));
    match back {
        Ok(b) => check(same(b.expose_secret().as_bytes(), pw.as_bytes()), "decode() returns the password"),
        Err(_) => check(false, "decode() succeeds"),
    }
    // a different primary password gets nothing
    let back = psym::merged(400, || recovery_codes::decode(&typed, &secret("Primary")));
    check(
        matches!(back, Err(Error::DecryptionFailure)),
        "a wrong primary password is reported as such",
    );
}

/// Group number `k` of five bits.
fn five_bits(x: &[u8], k: usize) -> u8 {
    let (at, off) = (k * 5 / 8, k * 5 % 8);
    let hi = (x[at] << off) >> 3;
    let lo = if off > 3 { x[at + 1] >> (11 - off) } else { 0 };
    (hi | lo) & 31
}

/// A line of 24 symbols.
fn encode_line(x: &[u8]) -> Vec<u8> {
    (0..24).map(|k| ALPHABET[five_bits(x, k) as usize]).collect()
}

/// format_code: the code's symbols in upper case and nothing else, with the punctuation where
/// it belongs; formatting what is formatted changes nothing.
pub fn h_format() {
    let k = param("prefix", 0) as usize;
    let l = param("len", 3) as usize;
    let mut input = vec![];
    let letters = bytes(k, "letters");
    for i in 0..k {
        input.push(ALPHABET[letters[i] as usize & 31]);
    }
    // anything at all, classified one by one
    let mut kept = input.clone();
    let x = bytes(l, "input");
    let tab = is_symbol_table();
    for i in 0..l {
        input.push(x[i]);
        let c = x[i];
        let lower = c >= b'a' && c <= b'z';
        let up = if lower { c - 32 } else { c };
        if tab[up as usize] == 1 {
            kept.push(up);
            reach("kept");
        } else {
            reach("dropped");
        }
    }
    let plain = recovery_codes::format_code(&input, false);
    check(same(plain.as_bytes(), &kept), "only the symbols remain, in upper case and in order");
    let pretty = recovery_codes::format_code(&input, true);
    let mut want = vec![];
    for i in 0..kept.len() {
        if i > 0 {
            if i % 24 == 0 {
                want.push(b'\n');
            } else if i % 12 == 0 {
                want.push(b':');
            } else if i % 4 == 0 {
                want.push(b'-');
            }
        }
        want.push(kept[i]);
    }
    check(same(pretty.as_bytes(), &want), "punctuation between groups, and only there");
    let again = recovery_codes::format_code(pretty.as_bytes(), true);
    check(same(again.as_bytes(), &want), "formatting twice is formatting once");
    let back = recovery_codes::format_code(pretty.as_bytes(), false);
    check(same(back.as_bytes(), &kept), "punctuation is not significant");
}

/// decode() of anything: no panic, a documented error, or the text that was encrypted.
pub fn h_decode_any() {
    let lines = param("lines", 3) as usize;
    let extra = param("extra", 0) as usize;
    let ends = param("good", 0) == 1;
    let mut p = Passwords::new(MemIO::new());
    p.reset(secret("primary")).unwrap();
    let mut data = vec![];
    let mut t = vec![];
    // 0: checksum of a line in the middle, 1: of the last one, 2: neither
    let mut kinds = vec![];
    for i in 0..lines {
        let mut x = bytes(15, "line");
        let high = match param("class", 9) {
            9 => choice(2, "line bytes above 127") == 1,
            c => c == 1,
        };
        let class = half(high);
        for k in 0..14 {
            if i > 0 || k > 0 {
                x[k] = class[x[k] as usize];
            }
        }
        let mid = checksum(&x[..14], i as u8);
        let last = checksum(&x[..14], 255 - i as u8);
        let kind = if psym::fork(x[14] == last) {
            1
        } else if psym::fork(x[14] == mid) {
            0
        } else {
            2
        };
        if ends {
            assume(kind == (i + 1 == lines) as u32);
        }
        kinds.push(kind);
        data.extend_from_slice(&x[..14]);
        t.extend(encode_line(&x));
    }
    let e = bytes(extra, "extra");
    for i in 0..extra {
        t.push(ALPHABET[e[i] as usize & 31]);
    }
    // the contents decrypt to arbitrary bytes
    let n = data.len();
    let pt = if n > 45 { bytes(n - 45, "plaintext") } else { vec![] };
    if n >= 45 {
        let k = pt.len();
        let mut pt = pt.clone();
        for i in 0..k {
            // all but the last few bytes are ASCII
            if i + 3 < k {
                pt[i] &= 0x7f;
            }
        }
        psym::model::get().aead_open = Some(pt);
    }
    let pt = psym::model::get().aead_open.clone().unwrap_or(vec![]);
    let typed = text(&t);
    let r = psym::attempt(|| recovery_codes::decode(&typed, &secret("primary")));
    psym::model::get().aead_open = None;
    let r = match r {
        psym::Outcome::Done(r) => r,
        _ => {
            check(false, "decoding ends without a panic");
            return;
        }
    };
    // what the lines say
    let mut want = (0u32, 0usize);
    let mut seen = false;
    for i in 0..lines {
        if seen {
            want = (3, i);
            break;
        }
        if kinds[i] == 1 {
            seen = true;
        } else if kinds[i] == 2 {
            want = (2, i);
            break;
        }
    }
    if want.0 == 0 {
        if !seen {
            want = (1, 0);
        } else if extra > 0 {
            want = (3, lines);
        } else if data[0] != 1 {
            want = (4, 0);
        } else if n < 45 {
            want = (5, 0);
        }
    }
    match r {
        Ok(s) => {
            reach("decoded");
            check(want.0 == 0, "only complete data is decoded");
            let s = s.expose_secret().as_bytes();
            check(std::str::from_utf8(s).is_ok(), "the result is text");
            let mut k = pt.len();
            while k > 0 && pt[k - 1] == 0 {
                k -= 1;
            }
            check(same(s, &pt[..k]), "the result is the decrypted text without its padding");
        }
        Err(e) => {
            reach("rejected");
            if want.0 != 0 {
                check(line_of(&e) == want, "the reason for rejection is given");
            } else {
                check(matches!(e, Error::InvalidUtf8 { .. }), "only data that isn't text is refused");
                check(std::str::from_utf8(&pt).is_err(), "text is not refused");
            }
        }
    }
}

fn line_of(e: &Error) -> (u32, usize) {
    match e {
        Error::RecoveryCodeIncomplete => (1, 0),
        Error::RecoveryCodeChecksumMismatch { line } => (2, *line),
        Error::RecoveryCodeExtraData { line } => (3, *line),
        Error::RecoveryCodeWrongVersion => (4, 0),
        Error::RecoveryCodeInsufficientData => (5, 0),
        Error::DecryptionFailure => (6, 0),
        _ => (7, 0),
    }
}

/// Lines missing, repeated, swapped, cut off or added are noticed, and the first wrong line named.
pub fn h_recovery_damage() {
    let n = param("n", 5) as usize;
    let class = match param("class", 9) {
        9 => choice(4, "bytes above 127"),
        c => c as u32,
    };
    // one particular code, of random numbers and ciphertext as the stand-ins make them
    let given = param("given", 0) == 1;
    if !given {
        arbitrary_rng(100, class, "random");
    }
    let mut p = Passwords::new(MemIO::new());
    p.reset(secret("primary")).unwrap();
    psym::model::get().aead_symbolic = !given;
    let tail = if given { "pw\u{e9}x".to_string() } else { arbitrary_text(n, 0, "password") };
    let pw = pad(param("long", 0)) + &tail;
    let sp = StoredPassword::new("example.com", "me", "1", secret_bytes(pw.as_bytes()));
    let code = p.get_recovery_code(&sp).unwrap();
    psym::model::get().aead_symbolic = false;
    let sym = symbols(code.as_bytes());
    let lines = sym.len() / 24;
    let get = |i: usize| sym[i * 24..i * 24 + 24].to_vec();
    let mut t: Vec<u8> = vec![];
    let kind = match param("kind", 0) {
        0 => choice(7, "kind"),
        k => k as u32 - 1,
    };
    let want: (u32, usize);
    match kind {
        0 => {
            // two lines swapped
            let i = choice(lines as u32, "i") as usize;
            let j = choice(lines as u32, "j") as usize;
            assume(i < j);
            for k in 0..lines {
                t.extend(get(if k == i { j } else if k == j { i } else { k }));
            }
            want = (2, i);
        }
        1 => {
            // a line left out
            let i = choice(lines as u32, "i") as usize;
            for k in 0..lines {
                if k != i {
                    t.extend(get(k));
                }
            }
            want = if i == lines - 1 { (1, 0) } else { (2, i) };
        }
        2 => {
            // a line entered twice
            let i = choice(lines as u32, "i") as usize;
            for k in 0..lines {
                t.extend(get(k));
                if k == i {
                    t.extend(get(k));
                }
            }
            want = if i == lines - 1 { (3, lines) } else { (2, i + 1) };
        }
        3 => {
            // cut off
            let k = choice(sym.len() as u32, "kept") as usize;
            t.extend_from_slice(&sym[..k]);
            want = (1, 0);
        }
        4 => {
            // more symbols than there should be
            let k = 1 + choice(30, "extra") as usize;
            t.extend_from_slice(&sym);
            let x = bytes(k, "extra symbols");
            for b in x {
                t.push(ALPHABET[b as usize & 31]);
            }
            want = (3, lines);
        }
        5 => {
            // one line replaced by an arbitrary one: whatever is accepted must be the original
            let i = param("line", 0) as usize;
            t.extend_from_slice(&sym);
            let mut x = bytes(15, "line");
            if !given {
                let high = choice(2, "line bytes above 127") == 1;
                let class = half(high);
                for k in 0..14 {
                    x[k] = class[x[k] as usize];
                }
            }
            for k in 0..24 {
                t[i * 24 + k] = ALPHABET[five_bits(&x, k) as usize];
            }
            want = (0, i);
        }
        _ => {
            // one symbol mistyped
            let at = param("line", 0) as usize * 24 + choice(24, "at") as usize;
            t.extend_from_slice(&sym);
            let x = ALPHABET[bytes(1, "symbol")[0] as usize & 31];
            assume(x != t[at]);
            t[at] = x;
            want = (8, at / 24);
        }
    }
    let typed = text(&t);
    let limit = param("merge", if kind == 5 || kind == 6 { 0 } else { 400 }) as u32;
    let r = psym::merged(limit, || p.decode_recovery_code(&typed));
    match r {
        Ok(b) => {
            check(want.0 == 0, "a damaged code is not accepted");
            check(same(&t, &sym), "what is accepted is the code as generated");
            check(same(b.expose_secret().as_bytes(), pw.as_bytes()), "no wrong password is returned");
            reach("accepted");
        }
        Err(e) => {
            let got = line_of(&e);
            match want.0 {
                0 => {
                    check(got.0 != 7, "a documented error is reported");
                    if got.0 == 2 {
                        check(got.1 == want.1, "the mistyped line is named");
                    }
                }
                8 => {
                    check(got.0 != 7, "a documented error is reported");
                    if got.0 == 2 {
                        check(got.1 == want.1, "the mistyped line is named");
                    }
                }
                _ => check(got == want, "the damage is reported for what it is"),
            }
            reach("rejected");
        }
    }
}

/// Codes of very long passwords.
pub fn h_long() {
    let n = param("n", 3570) as usize;
    let mut p = Passwords::new(MemIO::new());
    p.reset(secret("primary")).unwrap();
    let mut pw = vec![b'x'; n];
    for i in 0..n {
        pw[i] = b'a' + (psym::model::mix(i as u64) % 26) as u8;
    }
    // a few characters anywhere
    let at = choice(3, "place") as usize * (n - 2) / 2;
    let b = bytes(2, "characters");
    assume((b[0] < 128) & (b[1] < 128) & (b[1] != 0));
    pw[at..at + 2].copy_from_slice(&b);
    let sp = StoredPassword::new("example.com", "me", "1", secret_bytes(&pw));
    let r = attempt(|| p.get_recovery_code(&sp));
    let code = match r {
        Outcome::Done(Ok(c)) => c,
        _ => return check(false, "a code is made"),
    };
    check(code.lines().count() == (45 + n + 13) / 14, "code has as many lines as the data needs");
    match attempt(|| p.decode_recovery_code(&code)) {
        Outcome::Done(Ok(d)) => check(same(d.expose_secret().as_bytes(), &pw), "the code decodes to the password"),
        _ => check(false, "the code decodes"),
    }
    // without its last line
    let cut = code.rfind('\n').unwrap();
    match attempt(|| p.decode_recovery_code(&code[..cut])) {
        Outcome::Done(Err(Error::RecoveryCodeIncomplete)) => {}
        _ => check(false, "a code without its last line is incomplete"),
    }
    reach("compared");
}
