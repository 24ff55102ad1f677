//! The format of stored data: what others wrote is read, what cannot be read does no harm.
use crate::io::Shared;
use crate::model::*;
use crate::rec::arbitrary_text;
use crate::secrecy_::b64;
use crate::store::*;
use crate::util::*;
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_types::Password;
use psym::model::{stream, AeadCall, HmacCall, ScryptCall};
use psym::{attempt, bytes, check, choice, fork, param, reach, Outcome};
use secrecy::ExposeSecret;

/// A storage as any program knowing the format would write it.
pub struct Foreign {
    pub io: Shared,
    key: Vec<u8>,
    secret: Vec<u8>,
    n: u64,
}
impl Foreign {
    pub fn new(primary: &str) -> Foreign {
        let mut salt = vec![0u8; 16];
        stream(0xf0, 1, &mut salt);
        let (mut key, mut sec) = (vec![0u8; 32], vec![0u8; 32]);
        stream(0xf0, 2, &mut key);
        stream(0xf0, 3, &mut sec);
        let mut s = String::new();
        for &b in salt.iter() {
            s.push(b as char);
        }
        psym::model::get().scrypt.push(ScryptCall {
            password: primary.as_bytes().to_vec(),
            salt: s.into_bytes(),
            log_n: 15,
            r: 8,
            p: 1,
            len: 32,
            out: key.clone(),
        });
        let mut f = Foreign { io: Shared::new(), key, secret: sec, n: 10 };
        f.io.put("salt", &b64(&salt));
        let mut v = b"\"".to_vec();
        v.extend_from_slice(b64(&f.secret).as_bytes());
        v.push(b'"');
        let v = f.encrypt(&v);
        f.io.put("hmac-secret", &v);
        f
    }
    /// AES-256-GCM, as nonce and ciphertext.
    pub fn encrypt(&mut self, pt: &[u8]) -> String {
        let (mut nonce, mut ct) = (vec![0u8; 12], vec![0u8; pt.len() + 16]);
        self.n += 1;
        stream(0xf1, self.n, &mut nonce);
        stream(0xf2, self.n, &mut ct);
        let mut v = b64(&nonce);
        v.push('_');
        v.push_str(&b64(&ct));
        psym::model::get().aead.push(AeadCall {
            key: self.key.clone(),
            nonce,
            aad: vec![],
            pt: pt.to_vec(),
            ct,
        });
        v
    }
    /// HMAC-SHA256 in base64.
    pub fn digest(&mut self, data: &[u8]) -> String {
        let m = psym::model::get();
        for h in m.hmac.iter() {
            if h.key == self.secret && h.data.len() == data.len() && fork(same(&h.data, data)) {
                return b64(&h.out);
            }
        }
        let mut out = vec![0u8; 32];
        self.n += 1;
        stream(0xf3, self.n, &mut out);
        m.hmac.push(HmacCall {
            key: self.secret.clone(),
            data: data.to_vec(),
            out: out.clone(),
        });
        b64(&out)
    }
    pub fn site_key(&mut self, site: &[u8]) -> String {
        let mut k = String::from("site:");
        k.push_str(&self.digest(site));
        k
    }
    pub fn entry_key(&mut self, site: &[u8], name: &[u8], rev: &[u8]) -> String {
        let mut k = self.site_key(site);
        let mut d = site.to_vec();
        d.push(0);
        d.extend_from_slice(name);
        d.push(0);
        d.extend_from_slice(rev);
        k.push(':');
        k.push_str(&self.digest(&d));
        k
    }
}

/// An object, with the fields in order, reversed, or spaced out.
fn object(fields: &[(&str, Vec<u8>)], style: u32) -> Vec<u8> {
    let mut out = vec![b'{'];
    let n = fields.len();
    for i in 0..n {
        let (k, v) = &fields[if style == 1 { n - 1 - i } else { i }];
        if i > 0 {
            out.push(b',');
        }
        if style == 2 {
            out.extend_from_slice(b"\n  ");
        }
        out.push(b'"');
        out.extend_from_slice(k.as_bytes());
        out.push(b'"');
        out.push(b':');
        if style == 2 {
            out.push(b' ');
        }
        out.extend_from_slice(v);
    }
    out.push(b'}');
    out
}
fn quoted(v: &[u8]) -> Vec<u8> {
    let mut out = vec![b'"'];
    out.extend_from_slice(v);
    out.push(b'"');
    out
}
fn flag(on: bool) -> Vec<u8> {
    if on { b"true".to_vec() } else { b"false".to_vec() }
}

/// Data written elsewhere is read as what it is.
pub fn h_foreign() {
    let w = World::new();
    let primary = arbitrary_text(3, 0, "primary password");
    let mut f = Foreign::new(&primary);
    let style = choice(3, "style");
    let cs = 1 + choice(15, "charset");
    let stored = choice(2, "kind") == 1;
    let has_notes = choice(2, "notes") == 1;
    let rev = choice(2, "revision") as usize * 2;
    let mut m = Ref::default();
    let (s, n) = (w.sites[0].clone(), w.names[0].clone());
    let r = w.revs[rev].as_bytes();
    let notes = if has_notes { letters(2, "notes") } else { vec![] };
    let mut fields: Vec<(&str, Vec<u8>)> = vec![
        ("type", quoted(if stored { b"stored" } else { b"generated2" })),
        ("site", quoted(&s)),
        ("name", quoted(&n)),
        ("revision", quoted(r)),
    ];
    let kind = if stored {
        let pw = letters(3, "password");
        fields.push(("password", quoted(&pw)));
        Kind::Stored(pw)
    } else {
        fields.push(("length", b"12".to_vec()));
        fields.push(("lower", flag(cs & 1 != 0)));
        fields.push(("upper", flag(cs & 2 != 0)));
        fields.push(("number", flag(cs & 4 != 0)));
        fields.push(("symbol", flag(cs & 8 != 0)));
        Kind::Generated(12, cs)
    };
    if has_notes {
        fields.push(("notes", quoted(&notes)));
    }
    let json = object(&fields, style);
    let v = f.encrypt(&json);
    let k = f.entry_key(&s, &n, r);
    f.io.put(&k, &v);
    let v = f.encrypt(&object(&[("site", quoted(&s))], style));
    let k = f.site_key(&s);
    f.io.put(&k, &v);
    // and an alias for it
    let v = f.encrypt(&object(&[("site", quoted(&w.sites[1])), ("alias", quoted(&s))], style));
    let k = f.site_key(&w.sites[1]);
    f.io.put(&k, &v);
    m.sites.push((s.clone(), None));
    m.sites.push((w.sites[1].clone(), Some(s.clone())));
    m.entries.push(Entry { site: s, name: n, rev: r.to_vec(), kind, notes });

    let mut p = Passwords::new(f.io);
    check(p.initialized(), "the storage is recognized");
    match p.unlock(secret(&primary)) {
        Ok(()) => {}
        Err(_) => {
            check(false, "the storage can be unlocked");
            return;
        }
    }
    compare(&p, &m, &w.sites, &w.names, &w.revs);
    // it can be worked with
    check(p.remove(&text(&w.sites[1]), &text(&w.names[0]), w.revs[rev]).is_ok(), "entries can be removed");
    m.entries.clear();
    compare(&p, &m, &w.sites[..1], &w.names[..1], &w.revs);
    reach("read");
}

fn find(hay: &[u8], needle: &[u8]) -> bool {
    hay.len() >= needle.len() && (0..=hay.len() - needle.len()).any(|i| hay[i..i + needle.len()] == *needle)
}

/// What is written is what others can read: names and values of the fields, and keys made of
/// the digests.
pub fn h_written() {
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret("primary")).is_ok(), "reset");
    let cs = 1 + choice(15, "charset");
    let stored = choice(2, "kind") == 1;
    let notes = choice(2, "notes") == 1;
    let rev = ["", "1", "2", "x y"][choice(4, "revision") as usize];
    let r = if stored {
        p.set_stored("example.com", "me", rev, secret("s3cret"))
    } else {
        p.set_generated("example.com", "me", rev, 17, charset(cs))
    };
    check(r.is_ok(), "set");
    if notes {
        check(p.set_notes("example.com", "me", rev, secret("remember")).is_ok(), "set_notes");
    }
    check(p.set_alias("example.org", "example.com").is_ok(), "set_alias");
    let m = psym::model::get();
    let plain = |key: &str| -> Vec<u8> {
        let v = io.value(key).unwrap_or(String::new());
        for c in m.aead_log.iter() {
            let mut w = b64(&c.nonce);
            w.push('_');
            w.push_str(&b64(&c.ct));
            if w == v {
                check(c.aad.is_empty(), "no associated data");
                return c.pt.clone();
            }
        }
        check(false, "every entry is found under its key");
        vec![]
    };
    let digest = |data: &[u8]| -> String {
        m.hmac.iter().find(|h| h.data == data).map(|h| b64(&h.out)).unwrap_or(String::new())
    };
    let mut sk = String::from("site:");
    sk.push_str(&digest(b"example.com"));
    let site = plain(&sk);
    check(site == br#"{"site":"example.com"}"#, "the record of a site");
    let mut ak = String::from("site:");
    ak.push_str(&digest(b"example.org"));
    let alias = plain(&ak);
    check(
        alias == br#"{"site":"example.org","alias":"example.com"}"# || alias == br#"{"alias":"example.com","site":"example.org"}"#,
        "the record of an alias",
    );
    let r = if rev == "1" { "" } else { rev };
    let mut data = b"example.com\0me\0".to_vec();
    data.extend_from_slice(r.as_bytes());
    let mut ek = sk.clone();
    ek.push(':');
    ek.push_str(&digest(&data));
    let e = plain(&ek);
    check(find(&e, br#""site":"example.com""#), "field site");
    check(find(&e, br#""name":"me""#), "field name");
    let mut x = br#""revision":""#.to_vec();
    x.extend_from_slice(r.as_bytes());
    x.push(b'"');
    check(find(&e, &x), "field revision");
    check(find(&e, br#""notes":"remember""#) == notes, "field notes");
    if stored {
        check(find(&e, br#""type":"stored""#), "field type");
        check(find(&e, br#""password":"s3cret""#), "field password");
    } else {
        check(find(&e, br#""type":"generated2""#), "field type");
        check(find(&e, br#""length":17"#), "field length");
        for (i, k) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
            let mut x = vec![b'"'];
            x.extend_from_slice(k.as_bytes());
            x.extend_from_slice(b"\":");
            x.extend_from_slice(&flag(cs >> i & 1 != 0));
            check(find(&e, &x), "fields for the character sets");
        }
    }
    reach("compared");
}

/// Any text in any field comes back as it was.
pub fn h_text() {
    let n = param("n", 2) as usize;
    let mode = param("mode", 0);
    let field = param("field", 0);
    let x = pad(param("long", 0)) + &arbitrary_text(n, mode, "text");
    let or = |i: u64, d: &str| if field == i { x.clone() } else { d.to_string() };
    let (site, name, rev) = (or(0, "example.com"), or(1, "me"), or(2, "2"));
    let (pw, notes) = (or(3, "abc"), or(4, "some notes"));
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret("primary")).is_ok(), "reset");
    check(p.set_stored(&site, &name, &rev, secret(&pw)).is_ok(), "set_stored");
    check(p.set_notes(&site, &name, &rev, secret(&notes)).is_ok(), "set_notes");
    let mut q = Passwords::new(io.reopen());
    check(q.unlock(secret("primary")).is_ok(), "unlock");
    match q.get(&site, &name, &rev) {
        Ok(g) => check(g.expose_secret().len() == pw.len() && same(g.expose_secret().as_bytes(), pw.as_bytes()), "the password is the one stored"),
        Err(_) => check(false, "the password can be read"),
    }
    match q.get_notes(&site, &name, &rev) {
        Ok(g) => check(g.expose_secret().len() == notes.len() && same(g.expose_secret().as_bytes(), notes.as_bytes()), "the notes are the ones stored"),
        Err(_) => check(false, "the notes can be read"),
    }
    let l: Vec<Password> = q.list(&site, "*").collect();
    check(l.len() == 1, "one entry");
    for e in l {
        check(same_str(e.id().site(), &site) && same_str(e.id().name(), &name), "the entry has its site and name");
        let is_one = rev.len() == 1 && fork(rev.as_bytes()[0] == b'1');
        check(same_str(e.id().revision(), if is_one { "" } else { &rev }), "the entry has its revision");
    }
    let s: Vec<_> = q.list_sites("*").collect();
    check(s.len() == 1 && same_str(s[0].name(), &site), "the site is listed");
    reach("compared");
}
fn same_str(a: &str, b: &str) -> bool {
    a.len() == b.len() && same(a.as_bytes(), b.as_bytes())
}

fn good(f: &mut Foreign) {
    let v = f.encrypt(br#"{"site":"a.example"}"#);
    let k = f.site_key(b"a.example");
    f.io.put(&k, &v);
    let v = f.encrypt(br#"{"type":"stored","site":"a.example","name":"me","revision":"","password":"abc"}"#);
    let k = f.entry_key(b"a.example", b"me", b"");
    f.io.put(&k, &v);
    let v = f.encrypt(br#"{"site":"z.example","alias":"a.example"}"#);
    let k = f.site_key(b"z.example");
    f.io.put(&k, &v);
}
/// All of the reading operations on an entry that may be damaged, next to a good one.
fn survive(f: Foreign, unlockable: bool) {
    let r = attempt(move || {
        let mut p = Passwords::new(f.io);
        let _ = p.initialized();
        match p.unlock(secret("primary")) {
            Ok(()) => check(p.unlocked(), "unlocked"),
            Err(_) => {
                check(!unlockable, "damaged entries don't keep the storage from being unlocked");
                check(!p.unlocked(), "still locked");
                reach("not unlocked");
                return;
            }
        }
        let _ = p.get_alias("a.example");
        match p.get("a.example", "me", "1") {
            Ok(x) => check(x.expose_secret() == "abc", "the other entry is unharmed"),
            Err(_) => check(false, "the other entry can be read"),
        }
        let io = f.io;
        for _ in 0..2 {
            check(p.list("a.example", "*").any(|x| x.id().name() == "me"), "the other entry is listed");
            check(p.list_sites("*").any(|x| x.name() == "z.example"), "the other site is listed");
            // in whatever order they are kept
            io.it().data.reverse();
        }
        let _ = p.has("a.example", "you", "1");
        let _ = p.get_notes("a.example", "you", "1");
        let _ = p.get("a.example", "you", "1");
        match choice(4, "repair") {
            0 => check(p.set_stored("a.example", "you", "1", secret("def")).is_ok(), "the entry can be replaced"),
            1 => check(p.remove("a.example", "you", "1").is_ok(), "the entry can be removed"),
            2 => {
                let _ = p.set_notes("a.example", "you", "1", secret("x"));
            }
            _ => {}
        }
        reach("unlocked");
    });
    check(matches!(r, Outcome::Done(())), "no panic whatever is stored");
}

/// Keys that are none of this program's.
pub fn h_keys() {
    let n = param("n", 2) as usize;
    let mut f = Foreign::new("primary");
    good(&mut f);
    let x = arbitrary_text(n, param("mode", 0), "key");
    let s = f.site_key(b"b.example");
    let k = match choice(5, "prefix") {
        0 => x,
        1 => "site:".to_string() + &x,
        2 => s[..30].to_string() + &x,
        3 => s + &x,
        _ => s + ":" + &x,
    };
    for e in &f.io.it().data {
        psym::assume(e.0 != k);
    }
    f.io.put(&k, "x");
    let k = f.entry_key(b"a.example", b"you", b"");
    f.io.put(&k, "x");
    survive(f, true);
}

/// Values that are no ciphertexts at all.
pub fn h_garbage() {
    let n = param("n", 4) as usize;
    let mut f = Foreign::new("primary");
    good(&mut f);
    let x = arbitrary_text(n, param("mode", 0), "value");
    let k = match choice(4, "which") {
        0 => "salt".to_string(),
        1 => "hmac-secret".to_string(),
        2 => f.site_key(b"a.example"),
        _ => f.entry_key(b"a.example", b"you", b""),
    };
    let entry = k.len() > 12;
    if !entry || k.matches(':').count() == 2 || true {
        f.io.put(&k, &x);
    }
    if k.matches(':').count() == 1 {
        let y = f.encrypt(b"{}");
        let k = f.entry_key(b"a.example", b"you", b"");
        f.io.put(&k, &y);
    }
    survive(f, entry);
}

/// Ciphertexts with nonces and contents of any size, and altered ones.
pub fn h_tampered() {
    let mut f = Foreign::new("primary");
    good(&mut f);
    let kind = choice(4, "damage");
    let k = match kind {
        0 => f.entry_key(b"a.example", b"you", b""),
        1 => f.entry_key(b"a.example", b"you", b""),
        2 => "hmac-secret".to_string(),
        _ => f.entry_key(b"a.example", b"you", b""),
    };
    let was = match f.io.value(&k) {
        Some(v) => v,
        None => f.encrypt(br#"{"type":"stored","site":"a.example","name":"you","revision":"","password":"abc"}"#),
    };
    let v = match kind {
        0 => {
            // any sizes
            let mut v = b64(&bytes(choice(15, "nonce") as usize, "nonce bytes"));
            v.push('_');
            v.push_str(&b64(&bytes(choice(20, "ciphertext") as usize, "ciphertext bytes")));
            v
        }
        1 => {
            // a character of it changed
            let mut b = was.clone().into_bytes();
            let at = choice(b.len() as u32, "position") as usize;
            let x = bytes(1, "character")[0] & 0x7f;
            psym::assume(x != b[at]);
            // the last character before the padding has bits that mean nothing
            b[at] = x;
            text(&b)
        }
        2 => {
            // cut off
            let at = choice(was.len() as u32, "length") as usize;
            was[..at].to_string()
        }
        _ => {
            // two of them glued together
            let mut v = was.clone();
            v.push('_');
            v.push_str(&was);
            v
        }
    };
    f.io.put(&k, &v);
    if kind == 2 {
        let k = f.entry_key(b"a.example", b"you", b"");
        let v = f.encrypt(br#"{"type":"stored","site":"a.example","name":"you","revision":"","password":"abc"}"#);
        f.io.put(&k, &v);
    }
    if kind == 1 {
        let mut p = Passwords::new(f.io);
        check(p.unlock(secret("primary")).is_ok(), "unlock");
        let r = p.get("a.example", "you", "1");
        check(!matches!(r, Err(Error::KeyMissing)), "the entry is there");
        check(r.is_err(), "an altered entry is not accepted");
        check(p.list("a.example", "*").count() == 1, "an altered entry is not listed");
    }
    survive(f, kind != 2);
}

/// Properly encrypted, but not what it should be.
pub fn h_misfit() {
    let mut f = Foreign::new("primary");
    good(&mut f);
    let which = param("which", 0);
    let base: &[u8] = match which {
        0 => br#"{"type":"stored","site":"a.example","name":"you","revision":"","password":"x"}"#,
        1 => br#"{"type":"generated2","site":"a.example","name":"you","revision":"","length":8,"lower":true,"upper":false,"number":true,"symbol":false}"#,
        2 => br#"{"site":"a.example","alias":"b"}"#,
        3 => br#""c2VjcmV0""#,
        _ => b"",
    };
    let mut b = base.to_vec();
    if which < 4 {
        match choice(2, "damage") {
            0 => {
                let at = choice(b.len() as u32, "position") as usize;
                b[at] = bytes(1, "character")[0];
            }
            _ => {
                let at = choice(b.len() as u32, "length") as usize;
                b.truncate(at);
            }
        }
    } else {
        b = bytes(param("n", 3) as usize, "contents");
        if param("digits", 1) == 0 {
            for &x in b.iter() {
                psym::assume(!matches!(x, b'0'..=b'9'));
            }
        }
    }
    let k = match which {
        2 => f.site_key(b"a.example"),
        3 => "hmac-secret".to_string(),
        _ => f.entry_key(b"a.example", b"you", b""),
    };
    let v = f.encrypt(&b);
    f.io.put(&k, &v);
    if which == 2 || which == 3 {
        // entries cannot be found any more if their site turns out to be an alias or the
        // names have other digests: only no panic is asked for
        let io = f.io;
        let r = attempt(move || {
            let mut p = Passwords::new(io);
            if p.unlock(secret("primary")).is_ok() {
                let _ = p.get_alias("a.example");
                let _ = p.get("a.example", "me", "1");
                let _ = p.list("a.example", "*").count();
                let _ = p.list_sites("*").count();
                let _ = p.has("a.example", "me", "1");
                let _ = p.set_alias("c.example", "a.example");
                let _ = p.set_stored("a.example", "new", "1", secret("abc"));
                reach("unlocked");
            } else {
                reach("not unlocked");
            }
        });
        check(matches!(r, Outcome::Done(())), "no panic whatever is stored");
    } else {
        survive(f, true);
    }
}

/// An entry asking for a password there can't be, and others: an error or a password as asked for.
pub fn h_impossible() {
    let mut f = Foreign::new("primary");
    good(&mut f);
    let lengths = ["0", "1", "3", "4", "24", "25", "64", "1000000000000", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "-1", "1.5", "1e3", "\"8\"", "null"];
    let l = choice(lengths.len() as u32, "length") as usize;
    let c = choice(16, "characters");
    let mut s = format!("{{\"type\":\"generated2\",\"site\":\"a.example\",\"name\":\"you\",\"revision\":\"\",\"length\":{}", lengths[l]);
    for (i, n) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
        s.push_str(&format!(",\"{}\":{}", n, c >> i & 1 == 1));
    }
    s.push('}');
    let k = f.entry_key(b"a.example", b"you", b"");
    let v = f.encrypt(s.as_bytes());
    f.io.put(&k, &v);
    let io = f.io;
    let r = attempt(move || {
        let mut p = Passwords::new(io);
        check(p.unlock(secret("primary")).is_ok(), "unlocked");
        let n: usize = lengths[l].parse().unwrap_or(0);
        match p.get("a.example", "you", "1") {
            Ok(x) => {
                check(c != 0 && n > 0 && n < 1 << 30, "a password there can be");
                check(x.expose_secret().len() == n, "of the length asked for");
                reach("password");
            }
            Err(_) => {
                check(c == 0 || !(4..=24).contains(&n), "there is no such password");
                reach("error");
            }
        }
        check(p.get("a.example", "me", "1").map(|x| x.expose_secret() == "abc").unwrap_or(false), "the other entry is unharmed");
        check(p.set_stored("a.example", "you", "1", secret("def")).is_ok(), "the entry can be replaced");
    });
    check(matches!(r, Outcome::Done(())), "no panic whatever is stored");
}
