//! Locking: who may see and change what, and which primary password unlocks.
use crate::io::{same_data, Shared};
use crate::model::*;
use crate::rec::arbitrary_text;
use crate::store::letters;
use crate::util::*;
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_types::StoredPassword;
use psym::{attempt, check, choice, param, reach, Outcome};
use secrecy::ExposeSecret;

fn fill(p: &mut Passwords<Shared>, site: &str, pw: &[u8]) {
    check(p.set_stored(site, "me", "1", secret_bytes(pw)).is_ok(), "set_stored");
    check(p.set_notes(site, "me", "1", secret("some notes")).is_ok(), "set_notes");
    check(p.set_generated(site, "me", "2", 7, charset(5)).is_ok(), "set_generated");
    check(p.set_alias("other.example", site).is_ok(), "set_alias");
}
fn look(p: &Passwords<Shared>, site: &str, pw: &[u8]) {
    match p.get("other.example", "me", "1") {
        Ok(x) => check(same(x.expose_secret().as_bytes(), pw), "the stored password is there"),
        Err(_) => check(false, "the stored password can be read"),
    }
    check(p.list(site, "*").count() == 2, "all entries are there");
    check(p.list_sites("*").count() == 2, "all sites are there");
}

/// One arbitrary operation on locked passwords.
fn refused(p: &mut Passwords<Shared>, io: Shared, site: &str) {
    let before = io.it().data.clone();
    let flushes = io.it().flushes;
    let stored = StoredPassword::new(site, "me", "1", secret("abc"));
    let which = choice(15, "operation on locked passwords");
    // list() and list_sites() return no error, they must not return at all
    let e = match which {
        0 => end(&p.get_alias("other.example")),
        1 => end(&p.set_alias("x.example", site)),
        2 => end(&p.remove_alias("other.example")),
        3 => end(&p.remove_sites(&[site.to_string()])),
        4 => end(&p.set_generated(site, "me", "1", 8, charset(15))),
        5 => end(&p.set_stored(site, "me", "1", secret("abc"))),
        6 => end(&p.has(site, "me", "1")),
        7 => end(&p.get(site, "me", "1")),
        8 => end(&p.get_notes(site, "me", "1")),
        9 => end(&p.set_notes(site, "me", "1", secret("x"))),
        10 => end(&p.remove(site, "me", "1")),
        11 => end(&p.decode_recovery_code("ABCD")),
        12 => {
            if io.it().data.is_empty() {
                End::Locked
            } else {
                end(&p.get_recovery_code(&stored))
            }
        }
        13 => match attempt(|| p.list(site, "*").count()) {
            Outcome::Done(n) if n > 0 => End::Fine,
            _ => End::Locked,
        },
        _ => match attempt(|| p.list_sites("*").count()) {
            Outcome::Done(n) if n > 0 => End::Fine,
            _ => End::Locked,
        },
    };
    check(e == End::Locked, "a locked instance refuses the operation");
    check(same_data(&before, &io.it().data) && io.it().flushes == flushes, "a refused operation changes nothing");
    reach("refused");
}

pub fn h_lock() {
    let (n1, n2) = (param("n1", 3) as usize, param("n2", 3) as usize);
    let p1 = pad(param("long", 0)) + &arbitrary_text(n1, 0, "primary password");
    let p2 = pad(param("long", 0)) + &arbitrary_text(n2, 0, "password entered");
    let right = n1 == n2 && psym::fork(same(p1.as_bytes(), p2.as_bytes()));
    let mut site = letters(3, "site");
    site.push(b'!');
    let site = text(&site);
    let pw = letters(2, "stored");
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(!p.initialized() && !p.unlocked(), "nothing there at first");
    check(
        matches!(p.unlock(secret("x")), Err(Error::StorageNotInitialized)),
        "nothing to unlock at first",
    );
    check(!p.unlocked(), "still locked");
    if param("empty", 0) == 1 {
        refused(&mut p, io, &site);
        return;
    }
    check(p.reset(secret(&p1)).is_ok(), "reset");
    check(p.initialized() && p.unlocked(), "unlocked after the reset");
    fill(&mut p, &site, &pw);
    // locked, freshly opened or still unlocked when the password is entered
    let state = choice(4, "state");
    match state {
        0 => p.lock(),
        1 => p = Passwords::new(io),
        2 => {
            p.lock();
            check(p.unlock(secret("not the password")).is_err(), "wrong password");
        }
        _ => {}
    }
    check(p.initialized(), "locking removes nothing");
    check(p.unlocked() == (state == 3), "locked as expected");
    if param("locked", 0) == 1 {
        if state != 3 {
            refused(&mut p, io, &site);
        }
        return;
    }
    let before = io.it().data.clone();
    let r = p.unlock(secret(&p2));
    check(same_data(&before, &io.it().data), "unlocking writes nothing");
    if right {
        check(r.is_ok() && p.unlocked(), "the right password unlocks");
        look(&p, &site, &pw);
        reach("right");
    } else {
        check(matches!(r, Err(Error::DecryptionFailure)), "a wrong password is reported as such");
        check(p.unlocked() == (state == 3), "a wrong password changes nothing");
        if state == 3 {
            look(&p, &site, &pw);
        } else {
            refused(&mut p, io, &site);
            check(p.unlock(secret(&p1)).is_ok(), "the right password unlocks afterwards");
            look(&p, &site, &pw);
        }
        reach("wrong");
    }
}

/// A new primary password: the old one and everything stored under it are gone.
pub fn h_reset() {
    let p1 = arbitrary_text(param("n1", 2) as usize, 0, "old primary password");
    let p2 = arbitrary_text(param("n2", 2) as usize, 0, "new primary password");
    let p3 = arbitrary_text(param("n3", 2) as usize, 0, "password entered");
    let site = text(&letters(3, "site"));
    let pw = letters(2, "stored");
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret(&p1)).is_ok(), "reset");
    fill(&mut p, &site, &pw);
    let old = io.it().data.clone();
    if choice(2, "locked before") == 1 {
        p.lock();
    }
    if choice(2, "saving fails") == 1 {
        io.it().fail_flush = true;
        check(p.reset(secret(&p2)).is_err(), "a failure to save is reported");
        io.it().fail_flush = false;
        check(same_data(&io.it().flushed, &old), "nothing was saved");
        reach("not saved");
        return;
    }
    check(p.reset(secret(&p2)).is_ok() && p.unlocked(), "reset again");
    check(io.saved(), "the reset is saved");
    check(p.list_sites("*").count() == 0, "no sites are left");
    check(p.list(&site, "*").count() == 0, "no passwords are left");
    check(matches!(p.has(&site, "me", "1"), Ok(false)), "no password is left");
    for (k, v) in old.iter() {
        for (l, w) in io.it().data.iter() {
            check(k.starts_with("site:") as u32 & (k == l) as u32 == 0, "no entry survives");
            check(v != w, "salt and secret are new");
        }
    }
    let mut q = Passwords::new(io.reopen());
    let right = psym::fork(same(p2.as_bytes(), p3.as_bytes()));
    check(q.unlock(secret(&p3)).is_ok() == right, "only the new password unlocks");
    reach(if right { "right" } else { "wrong" });
}

/// Text to be kept secret, told apart from everything else by its first and last characters.
fn confidential(n: usize, name: &str, mark: &str) -> Vec<u8> {
    let v = [mark.as_bytes(), &letters(n, name), mark.as_bytes()].concat();
    psym::mark_secret(&v);
    v
}
/// After locking (and after every operation) no memory holds a password, note, key or primary
/// password that isn't handed out or needed.
pub fn h_forget() {
    let n = param("n", 3) as usize;
    let op = param("op", 0);
    let primary = confidential(n, "primary password", "Pq7");
    let other = confidential(n, "other primary password", "Oa4");
    let pw = confidential(n, "stored password", "Sx5");
    let notes = confidential(n, "notes", "Nk8Nk8");
    let typed = confidential(n, "new value", "Tj3Tj3");
    let site = "a-site-with-a-long-name.example.com";
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret_bytes(&primary)).is_ok(), "reset");
    fill(&mut p, site, &pw);
    check(p.set_notes(site, "me", "1", secret_bytes(&notes)).is_ok(), "set_notes");
    check(p.set_notes(site, "me", "2", secret_bytes(&notes)).is_ok(), "set_notes");
    let g = p.get(site, "me", "2").unwrap();
    psym::mark_secret(g.expose_secret().as_bytes());
    let code = p.get_recovery_code(&StoredPassword::new("a", "b", "", secret_bytes(&pw))).unwrap();
    for c in &psym::model::get().scrypt {
        if c.out.len() >= 8 {
            psym::mark_secret(&c.out);
        }
    }
    if let Some(c) = psym::model::get().hmac.first() {
        psym::mark_secret(&c.key);
    }
    psym::watch_secrets(true);
    let mut q = Passwords::new(io);
    let mut ok = true;
    if op == 0 {
        ok &= q.unlock(secret_bytes(&other)).is_err();
    }
    ok &= q.unlock(secret_bytes(&primary)).is_ok();
    match op {
        0 => {
            ok &= q.unlock(secret_bytes(&other)).is_err();
        }
        1 => {
            drop(q.get(site, "me", "1"));
            drop(q.get(site, "me", "2"));
            drop(q.get_notes(site, "me", "1"));
            drop(q.get_notes(site, "me", "2"));
            ok &= q.has(site, "me", "1").is_ok();
        }
        2 => {
            ok &= q.list(site, "*").count() == 2;
            ok &= q.list_sites("*").count() == 2;
        }
        3 => {
            ok &= q.set_stored(site, "me", "1", secret_bytes(&typed)).is_ok();
            ok &= q.set_stored(site, "you", "1", secret_bytes(&typed)).is_ok();
        }
        4 => {
            ok &= q.set_notes(site, "me", "1", secret_bytes(&typed)).is_ok();
            ok &= q.set_notes(site, "me", "2", secret_bytes(&typed)).is_ok();
        }
        5 => {
            ok &= q.remove(site, "me", "1").is_ok();
            ok &= q.remove(site, "me", "2").is_ok();
        }
        6 => {
            ok &= q.reset(secret_bytes(&other)).is_ok();
            ok &= q.set_stored(site, "you", "1", secret_bytes(&typed)).is_ok();
        }
        7 => {
            drop(q.decode_recovery_code(&code));
            let c = q.get_recovery_code(&StoredPassword::new("a", "b", "", secret_bytes(&pw)));
            ok &= c.is_ok();
        }
        _ => {
            let mut e = false;
            for x in q.list(site, "*") {
                if let pfp::storage_types::Password::Stored(s) = x {
                    e |= q.get_recovery_code(&s).is_ok();
                    ok &= same(s.password().expose_secret().as_bytes(), &pw);
                }
            }
            ok &= e;
        }
    }
    q.lock();
    check(ok, "the operations succeed");
    check(!psym::secrets_left(), "no memory still in use holds a secret");
    drop(q);
    psym::watch_secrets(false);
    reach("done");
}
