//! The storage file: what is saved is there afterwards, failures and crashes lose nothing,
//! files of others are read, broken ones refused.
use crate::model::*;
use crate::rec::arbitrary_text;
use crate::store::*;
use crate::util::*;
use pfp::passwords::Passwords;
use pfp::storage_io::{FileIO, StorageIO};
use psym::{attempt, bytes, check, choice, fork, param, reach, Outcome};
use std::path::Path;

const DIR: &str = "/scratch/d";
const FILE: &str = "/scratch/d/e/storage.json";

fn world() -> World {
    World {
        sites: vec![b"a.example".to_vec(), b"b.example".to_vec(), b"c.example".to_vec()],
        names: vec![b"me".to_vec(), b"you".to_vec()],
        revs: vec!["", "2"],
    }
}

/// True if everything the public interface shows agrees with the model.
fn agrees<IO: StorageIO>(p: &Passwords<IO>, m: &Ref, w: &World) -> bool {
    let sites: Vec<_> = p.list_sites("*").collect();
    let ok = match_all(&sites, &m.sites, |a, b| {
        a.name().as_bytes() == b.0 && a.alias().map(|x| x.as_bytes()) == b.1.as_deref()
    });
    if !ok {
        return false;
    }
    for s in w.sites.iter() {
        let r = m.resolve(s);
        let want: Vec<&Entry> = m.entries.iter().filter(|e| e.site == r).collect();
        let got: Vec<_> = p.list(&text(s), "*").collect();
        if !match_all(&got, &want, |a, b| same_entry(a, b)) {
            return false;
        }
    }
    true
}

fn prepare<IO: StorageIO>(p: &mut Passwords<IO>, m: &mut Ref, pw: &[u8]) {
    let (a, b, c) = ("a.example", "b.example", "c.example");
    check(p.set_stored(a, "me", "", secret_bytes(pw)).is_ok(), "set_stored");
    m.set(a.as_bytes(), b"me", b"", Kind::Stored(pw.to_vec()));
    check(p.set_generated(a, "you", "2", 9, charset(7)).is_ok(), "set_generated");
    m.set(a.as_bytes(), b"you", b"2", Kind::Generated(9, 7));
    check(p.set_alias(b, a).is_ok(), "set_alias");
    m.set_alias(b.as_bytes(), a.as_bytes());
    check(p.set_generated(c, "me", "", 8, charset(15)).is_ok(), "set_generated");
    m.set(c.as_bytes(), b"me", b"", Kind::Generated(8, 15));
    check(p.remove(c, "me", "").is_ok(), "remove");
    m.remove(c.as_bytes(), b"me", b"");
}

/// One of the operations that change something.
fn change<IO: StorageIO>(p: &mut Passwords<IO>, m: &mut Ref, op: u32, pw: &[u8]) -> bool {
    let (a, b, c) = ("a.example", "b.example", "c.example");
    match op {
        0 => {
            m.set(a.as_bytes(), b"you", b"", Kind::Stored(pw.to_vec()));
            p.set_stored(a, "you", "1", secret_bytes(pw)).is_ok()
        }
        1 => {
            m.set(c.as_bytes(), b"you", b"", Kind::Generated(12, 3));
            p.set_generated(c, "you", "", 12, charset(3)).is_ok()
        }
        2 => {
            m.set_notes(a.as_bytes(), b"me", b"", pw);
            p.set_notes(b, "me", "", secret_bytes(pw)).is_ok()
        }
        3 => {
            m.remove(a.as_bytes(), b"me", b"");
            p.remove(b, "me", "1").is_ok()
        }
        4 => {
            m.set_alias(c.as_bytes(), a.as_bytes());
            p.set_alias(c, b).is_ok()
        }
        5 => {
            m.remove_alias(b.as_bytes());
            p.remove_alias(b).is_ok()
        }
        6 => {
            m.remove_site(c.as_bytes());
            p.remove_sites(&[c.to_string()]).is_ok()
        }
        _ => {
            *m = Ref::default();
            p.reset(secret("another")).is_ok()
        }
    }
}

/// What was saved to a file is what the next user of the file finds.
pub fn h_file() {
    let w = world();
    let pw = letters(3, "stored password");
    let mut m = Ref::default();
    if choice(2, "directory exists") == 1 {
        psym::fs::mkdir(DIR);
        psym::fs::mkdir("/scratch/d/e");
    }
    if choice(2, "something there before") == 1 {
        psym::fs::mkdir(DIR);
        psym::fs::mkdir("/scratch/d/e");
        psym::fs::write(FILE, b"a longer text that was there before, and is not meant to stay, and is longer still than the new one will be, or almost");
    }
    let mut p = Passwords::new(FileIO::new(Path::new(FILE)));
    check(p.reset(secret("primary")).is_ok(), "a new storage file is made, with the directories for it");
    prepare(&mut p, &mut m, &pw);
    let op = choice(8, "operation");
    let done = change(&mut p, &mut m, op, &pw);
    check(done, "the operation succeeds");
    drop(p);
    match FileIO::load(Path::new(FILE)) {
        Ok(io) => {
            let mut q = Passwords::new(io);
            check(q.initialized(), "the storage is recognized");
            if op == 7 {
                check(q.unlock(secret("primary")).is_err(), "the former primary password is no more");
            }
            check(q.unlock(secret(if op == 7 { "another" } else { "primary" })).is_ok(), "the primary password unlocks it");
            check(agrees(&q, &m, &w), "what was saved is there");
            compare(&q, &m, &w.sites, &w.names, &w.revs);
            // and it stays where it came from
            let op2 = choice(2, "second operation");
            let mut m2 = m.clone();
            if op != 7 {
                check(change(&mut q, &mut m2, op2, &pw), "the loaded storage can be changed");
                drop(q);
                match FileIO::load(Path::new(FILE)) {
                    Ok(io) => {
                        let mut q = Passwords::new(io);
                        check(q.unlock(secret("primary")).is_ok(), "the primary password unlocks it");
                        check(agrees(&q, &m2, &w), "what was saved later is there");
                        reach("reloaded");
                    }
                    Err(_) => check(false, "the file can be loaded again"),
                }
            }
        }
        Err(_) => check(false, "the file can be loaded"),
    }
}

/// Whatever happens while saving, the file holds what it held before or what it was to hold.
pub fn h_faults() {
    let w = world();
    let pw = letters(2, "stored password");
    let mut m = Ref::default();
    psym::fs::mkdir(DIR);
    psym::fs::mkdir("/scratch/d/e");
    let mut p = Passwords::new(FileIO::new(Path::new(FILE)));
    check(p.reset(secret("primary")).is_ok(), "a new storage file is made");
    prepare(&mut p, &mut m, &pw);
    drop(p);
    let io = match FileIO::load(Path::new(FILE)) {
        Ok(io) => io,
        Err(_) => return check(false, "the file can be loaded"),
    };
    let mut p = Passwords::new(io);
    check(p.unlock(secret("primary")).is_ok(), "the primary password unlocks it");
    let op = match param("op", 99) as u32 {
        99 => choice(8, "operation"),
        x => x,
    };
    let before = m.clone();
    let mut after = m;
    psym::faults(param("faults", 1) as u32, param("kinds", 7) as u32);
    let r = {
        let (p, after, pw) = (&mut p, &mut after, &pw);
        attempt(move || change(p, after, op, pw))
    };
    psym::faults(0, 0);
    check(r != Outcome::Panic, "a failure to save is reported, not a panic");
    if let Outcome::Crash = r {
        // what the operation was to achieve
        let mut m = before.clone();
        let mut q = Passwords::new(crate::io::Shared::new());
        check(q.reset(secret("primary")).is_ok(), "scratch");
        let mut x = Ref::default();
        prepare(&mut q, &mut x, &pw);
        change(&mut q, &mut m, op, &pw);
        after = m;
    }
    let io = match FileIO::load(Path::new(FILE)) {
        Ok(io) => io,
        Err(_) => return check(false, "the file is still good after a failure or crash while saving"),
    };
    let mut q = Passwords::new(io);
    check(q.initialized(), "the storage is recognized");
    let old = q.unlock(secret("primary")).is_ok();
    if !old {
        check(op == 7 && q.unlock(secret("another")).is_ok(), "the file can be unlocked");
    }
    let is_before = (op != 7 || old) && agrees(&q, &before, &w);
    let is_after = (op != 7 || !old) && agrees(&q, &after, &w);
    match r {
        Outcome::Done(true) => {
            check(is_after, "what was reported as done is in the file");
            reach("done");
        }
        Outcome::Done(false) => {
            check(is_before || is_after, "after a failure the file holds the old or the new data");
            reach("failed");
            if op == 7 {
                // the reset may have happened or not, but what is saved now has to be there
                let mut x = Ref::default();
                let added = change(&mut p, &mut x, 1, &pw);
                if let (true, Ok(io)) = (added, FileIO::load(Path::new(FILE))) {
                    let mut q = Passwords::new(io);
                    let ok = q.unlock(secret("another")).is_ok() || q.unlock(secret("primary")).is_ok();
                    check(ok, "one of the passwords unlocks the file");
                    let mut m = before.clone();
                    change(&mut Passwords::new(crate::io::Shared::new()), &mut m, 1, &pw);
                    check(agrees(&q, &x, &w) || agrees(&q, &m, &w), "what is added after a failed reset is there");
                    reach("after a failed reset");
                } else {
                    check(false, "passwords can be added after a failed reset");
                }
            } else {
                // trying again works, and nothing is left out
                let ok = change(&mut p, &mut before.clone(), op, &pw);
                if ok {
                    if let Ok(io) = FileIO::load(Path::new(FILE)) {
                        let mut q = Passwords::new(io);
                        check(q.unlock(secret("primary")).is_ok(), "the primary password unlocks it");
                        check(agrees(&q, &after, &w), "a second attempt makes up for the failure");
                    } else {
                        check(false, "the file can be loaded after a second attempt");
                    }
                    reach("second attempt");
                }
            }
        }
        _ => {
            check(is_before || is_after, "after a crash the file holds the old or the new data");
            reach("crashed");
        }
    }
    // nothing gets in the way of the next one
    let mut m2 = if is_after { after } else { before };
    if op == 0 || op == 1 || op == 4 {
        let io = match FileIO::load(Path::new(FILE)) {
            Ok(io) => io,
            Err(_) => return check(false, "the file can be loaded"),
        };
        let mut q = Passwords::new(io);
        check(q.unlock(secret("primary")).is_ok(), "the primary password unlocks it");
        if let Outcome::Crash = r {
            check(change(&mut q, &mut m2, 2, &pw), "saving works again after a crash");
            match FileIO::load(Path::new(FILE)) {
                Ok(io) => {
                    let mut q = Passwords::new(io);
                    check(q.unlock(secret("primary")).is_ok(), "the primary password unlocks it");
                    check(agrees(&q, &m2, &w), "what is saved after a crash is there");
                }
                Err(_) => check(false, "the file can be loaded after a crash"),
            }
        }
    }
}

/// A failure while making the first file.
pub fn h_first() {
    let r = {
        psym::faults(param("faults", 1) as u32, param("kinds", 7) as u32);
        let r = attempt(|| {
            let mut p = Passwords::new(FileIO::new(Path::new(FILE)));
            p.reset(secret("primary")).is_ok()
        });
        psym::faults(0, 0);
        r
    };
    check(r != Outcome::Panic, "a failure to save is reported, not a panic");
    match FileIO::load(Path::new(FILE)) {
        Ok(io) => {
            let mut p = Passwords::new(io);
            check(p.initialized(), "a file that is there is whole");
            check(p.unlock(secret("primary")).is_ok(), "the primary password unlocks it");
            reach("saved");
        }
        Err(_) => {
            check(r != Outcome::Done(true), "what was reported as done is in the file");
            check(psym::fs::read(FILE).is_none(), "no file or a good one");
            reach("not saved");
        }
    }
}

fn load(contents: &[u8]) -> Option<FileIO> {
    psym::fs::write(FILE_PLAIN, contents);
    match attempt(|| FileIO::load(Path::new(FILE_PLAIN))) {
        Outcome::Done(r) => r.ok(),
        _ => {
            check(false, "no panic whatever a file contains");
            None
        }
    }
}
const FILE_PLAIN: &str = "/scratch/f.json";

/// Any strings come back from a file as they were.
pub fn h_values() {
    let n = param("n", 2) as usize;
    let v = pad(param("long", 0)) + &arbitrary_text(n, param("mode", 0), "value");
    let keys = ["salt", "hmac-secret", "site:\u{e4}\"\\\n"];
    let mut io = FileIO::new(Path::new(FILE_PLAIN));
    let which = choice(3, "key") as usize;
    io.set(keys[which].to_string(), "to be replaced".to_string());
    io.set(keys[(which + 1) % 3].to_string(), "to be removed".to_string());
    io.set(keys[which].to_string(), v.clone());
    check(io.remove(keys[(which + 1) % 3]).is_ok(), "remove");
    check(io.flush().is_ok(), "flush");
    match FileIO::load(Path::new(FILE_PLAIN)) {
        Ok(io) => {
            check(io.keys().count() == 1, "one key");
            check(io.contains_key(keys[which]), "the key is there");
            check(!io.contains_key(keys[(which + 1) % 3]), "the removed one isn't");
            match io.get(keys[which]) {
                Ok(x) => check(x.len() == v.len() && same(x.as_bytes(), v.as_bytes()), "the value is the one saved"),
                Err(_) => check(false, "the value is found"),
            }
            check(io.get("else").is_err(), "and no other");
            reach("compared");
        }
        Err(_) => check(false, "the file can be loaded"),
    }
}

/// Files by others: accepted if and only if they are storage files of this format.
pub fn h_header() {
    let (an, fnn) = (param("an", 3) as usize, param("fn", 1) as usize);
    let app = letters(an, "application");
    let digits: Vec<u8> = bytes(fnn, "format").iter().map(|b| b'0' + (b & 7)).collect();
    let layout = choice(3, "layout");
    let missing = choice(4, "missing field");
    let extra = choice(3, "extra field");
    let mut fields: Vec<(&[u8], Vec<u8>)> = vec![];
    let quote = |v: &[u8]| {
        let mut o = vec![b'"'];
        o.extend_from_slice(v);
        o.push(b'"');
        o
    };
    if missing != 1 {
        fields.push((b"application", quote(&app)));
    }
    if missing != 2 {
        fields.push((b"format", digits.clone()));
    }
    if missing != 3 {
        fields.push((b"data", br#"{"salt":"x","hmac-secret":"y"}"#.to_vec()));
    }
    match extra {
        1 => fields.push((b"other", b"1".to_vec())),
        2 => fields.push((b"path", br#""/scratch/g.json""#.to_vec())),
        _ => {}
    }
    if layout == 1 {
        fields.reverse();
    }
    let mut c = if layout == 2 { b" \r\n{\n\t".to_vec() } else { b"{".to_vec() };
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            c.extend_from_slice(if layout == 2 { b" , " } else { b"," });
        }
        c.extend_from_slice(&quote(k));
        c.extend_from_slice(if layout == 2 { b" : " } else { b":" });
        c.extend_from_slice(v);
    }
    c.extend_from_slice(if layout == 2 { b"\n}\n" } else { b"}" });
    let good = missing == 0 && extra == 0 && an == 3 && fnn == 1 && fork(same(&app, b"pfp")) && fork(digits[0] == b'3');
    match load(&c) {
        Some(io) => {
            check(good, "only files of this application and format are accepted");
            check(io.get("salt").map(|x| x == "x").unwrap_or(false) && io.get("hmac-secret").map(|x| x == "y").unwrap_or(false) && io.keys().count() == 2, "the data is what the file says");
            reach("accepted");
        }
        None => {
            check(!good, "files of this application and format are accepted");
            reach("refused");
        }
    }
}

/// What is written has the fields others expect.
pub fn h_layout() {
    let v = letters(3, "value");
    let mut io = FileIO::new(Path::new(FILE_PLAIN));
    io.set("salt".to_string(), text(&v));
    check(io.flush().is_ok(), "flush");
    let c = psym::fs::read(FILE_PLAIN).unwrap_or_default();
    let mut want = br#"{"application":"pfp","format":3,"data":{"salt":""#.to_vec();
    want.extend_from_slice(&v);
    want.extend_from_slice(br#""}}"#);
    // up to the order of the fields and white space
    let c: Vec<u8> = c.into_iter().filter(|b| !psym::fork(b.is_ascii_whitespace())).collect();
    let has = |n: &[u8]| c.len() >= n.len() && (0..=c.len() - n.len()).any(|i| fork(same(&c[i..i + n.len()], n)));
    check(c.len() == want.len(), "the fields of the format and no others");
    check(has(br#""application":"pfp""#), "field application");
    check(has(br#""format":3"#), "field format");
    let mut d = br#""data":{"salt":""#.to_vec();
    d.extend_from_slice(&v);
    d.extend_from_slice(br#""}"#);
    check(has(&d), "field data");
    reach("compared");
}

/// Arbitrary contents; a good file cut off, with an arbitrary character in it, or more
/// text than there should be.
pub fn h_broken() {
    let good = br#"{"application":"pfp","format":3,"data":{"salt":"eHg=","hmac-secret":"y_z"}}"#;
    match param("kind", 0) {
        0 => {
            let c = bytes(param("n", 3) as usize, "contents");
            for &b in c.iter() {
                psym::assume(!matches!(b, b'0'..=b'9'));
            }
            check(load(&c).is_none(), "so short a file is no storage");
        }
        1 => {
            let at = choice(good.len() as u32, "length") as usize;
            check(load(&good[..at]).is_none(), "a file cut off is not accepted");
        }
        2 => {
            let at = choice(good.len() as u32, "position") as usize;
            let mut c = good.to_vec();
            c[at] = bytes(1, "character")[0];
            if let Some(io) = load(&c) {
                let n = io.keys().count();
                check(n == 1 || n == 2, "no more and no fewer keys than there are");
                // what can be read is used without harm
                let r = attempt(move || {
                    let mut p = Passwords::new(io);
                    if p.initialized() {
                        check(p.unlock(secret("primary")).is_err(), "nothing unlocks without a good secret");
                    }
                    check(!p.unlocked(), "still locked");
                });
                check(r == Outcome::Done(()), "no panic whatever a file contains");
                reach("accepted");
            } else {
                reach("refused");
            }
        }
        _ => {
            let at = choice(good.len() as u32 + 1, "position") as usize;
            let mut c = good.to_vec();
            let x = bytes(1, "character")[0];
            c.insert(at, x);
            let _ = load(&c);
            reach("inserted");
        }
    }
    reach("loaded");
}
