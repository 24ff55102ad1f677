//! Histories of storage operations, compared to the model.
use crate::io::{same_data, Shared};
use crate::model::*;
use crate::util::*;
use pfp::passwords::Passwords;
use psym::{bytes, check, choice, param, reach};

const LETTERS: &[u8; 32] = b"abcdefghijklmnopqrstuvwxyzABX.-_";

/// `n` arbitrary characters of those above.
pub fn letters(n: usize, name: &str) -> Vec<u8> {
    bytes(n, name).iter().map(|&b| LETTERS[b as usize & 31]).collect()
}

/// `n` printable characters other than quotes and backslash.
pub fn printable(n: usize, name: &str) -> Vec<u8> {
    let b = bytes(n, name);
    let mut ok = true;
    for c in &b {
        ok &= (*c < 127) & (*c >= b' ') & (*c != b'"') & (*c != b'\\');
    }
    psym::assume(ok);
    b
}

pub struct World {
    pub sites: Vec<Vec<u8>>,
    pub names: Vec<Vec<u8>>,
    pub revs: Vec<&'static str>,
}
impl World {
    /// Two arbitrary sites and names that differ, and the first site under its www. name.
    pub fn new() -> World {
        let long = param("long", 0);
        let mut a = padded(long, &letters(2, "site a"));
        let mut b = padded(long, &letters(2, "site b"));
        let mut n1 = padded(long, &letters(1, "name 1"));
        let mut n2 = padded(long, &letters(1, "name 2"));
        if param("close", 0) == 1 {
            // any characters that differ, be it in case alone
            n1 = printable(1, "name 1");
            n2 = printable(1, "name 2");
            a = printable(1, "site a");
            b = printable(1, "site b");
            psym::assume((n1[0] != n2[0]) & (a[0] != b[0]));
        } else {
            a.push(b'a');
            b.push(b'b');
            n1.push(b'1');
            n2.push(b'2');
        }
        let mut w = b"www.".to_vec();
        w.extend_from_slice(&a);
        if param("www", 1) == 2 {
            // only one of them is left out
            w = [b"www.", &w[..]].concat();
        }
        let mut sites = vec![a, b, w];
        if param("sites", 3) == 4 {
            let mut c = letters(1, "site c");
            c.push(b'c');
            sites.push(c);
        }
        World {
            sites,
            names: vec![n1, n2],
            revs: [["", "1", "2"], [" 1", "1", "01"], ["1 ", "2", "02"], ["+1", "1.0", "\u{b9}"], ["a", "A", "\u{e4}"], ["11", "", "12345678901234567890"]][param("revs", 0) as usize].to_vec(),
        }
    }
}

pub const SET_GENERATED: u32 = 0;
pub const SET_STORED: u32 = 1;
pub const SET_NOTES: u32 = 2;
pub const REMOVE: u32 = 3;
pub const SET_ALIAS: u32 = 4;
pub const REMOVE_ALIAS: u32 = 5;
pub const REMOVE_SITE: u32 = 6;
pub const RELOCK: u32 = 7;
pub const OPS: u32 = 8;

/// Arbitrary arguments for an operation: indices into the world.
pub fn arguments(sites: usize, op: u32) -> (usize, usize, usize) {
    let site = choice(sites as u32, "site") as usize;
    if op == SET_ALIAS {
        (site, choice(sites as u32, "alias") as usize, 0)
    } else if op >= REMOVE_ALIAS {
        (site, 0, 0)
    } else {
        (site, choice(2, "name") as usize, choice(3, "revision") as usize)
    }
}

/// One operation with the given or arbitrary arguments, on both.
pub fn step(p: &mut Passwords<Shared>, io: Shared, m: &mut Ref, w: &World, op: u32, args: Option<(usize, usize, usize)>) {
    let (site, name, rev) = args.unwrap_or_else(|| arguments(w.sites.len(), op));
    let s = w.sites[site].clone();
    let st = text(&s);
    let n = w.names[if op == SET_ALIAS { 0 } else { name }].clone();
    let nt = text(&n);
    let r = w.revs[rev];
    let before = io.it().flushed.clone();
    let (got, want) = match op {
        SET_GENERATED => {
            let len = 5 + rev;
            (end(&p.set_generated(&st, &nt, r, len, charset(15 - rev as u32))), m.set(&s, &n, r.as_bytes(), Kind::Generated(len, 15 - rev as u32)))
        }
        SET_STORED => {
            let pw = padded(param("long", 0), &letters(3, "stored password"));
            (end(&p.set_stored(&st, &nt, r, secret_bytes(&pw))), m.set(&s, &n, r.as_bytes(), Kind::Stored(pw)))
        }
        SET_NOTES => {
            let notes = padded(param("long", 0), &letters(2, "notes"));
            (end(&p.set_notes(&st, &nt, r, secret_bytes(&notes))), m.set_notes(&s, &n, r.as_bytes(), &notes))
        }
        REMOVE => (end(&p.remove(&st, &nt, r)), m.remove(&s, &n, r.as_bytes())),
        SET_ALIAS => {
            let a = w.sites[name].clone();
            (end(&p.set_alias(&st, &text(&a))), m.set_alias(&s, &a))
        }
        REMOVE_ALIAS => (end(&p.remove_alias(&st)), m.remove_alias(&s)),
        REMOVE_SITE => (end(&p.remove_sites(&[st])), m.remove_site(&s)),
        _ => {
            p.lock();
            check(!p.unlocked(), "locked");
            let r = end(&p.unlock(secret("primary")));
            check(p.unlocked(), "unlocked again");
            (r, End::Fine)
        }
    };
    check(ended(got, want), "the operation succeeds or fails as it should");
    if want == End::Fine {
        check(io.saved(), "what succeeded is saved");
    } else {
        check(same_data(&io.it().flushed, &before), "what failed changes nothing that is saved");
        check(io.saved(), "what failed changes nothing");
    }
}

/// Brings both into one of a number of states.
pub fn setup(p: &mut Passwords<Shared>, io: Shared, m: &mut Ref, w: &World, which: u64) {
    let steps: &[(u32, (usize, usize, usize))] = match which {
        0 => &[],
        // one generated password
        1 => &[(SET_GENERATED, (0, 0, 0))],
        // revisions of an entry, stored and generated, with notes
        2 => &[(SET_STORED, (0, 0, 0)), (SET_NOTES, (0, 0, 0)), (SET_GENERATED, (0, 0, 2)), (SET_NOTES, (0, 0, 2))],
        // an alias with passwords behind it
        3 => &[(SET_ALIAS, (0, 1, 0)), (SET_STORED, (1, 0, 0)), (SET_GENERATED, (0, 1, 0))],
        // an alias of a site without data
        4 => &[(SET_ALIAS, (0, 1, 0))],
        // the same names on two sites
        5 => &[(SET_STORED, (0, 0, 0)), (SET_STORED, (1, 0, 0)), (SET_NOTES, (1, 0, 0)), (SET_GENERATED, (1, 1, 2))],
        // a site whose passwords are gone
        6 => &[(SET_GENERATED, (0, 0, 0)), (REMOVE, (0, 0, 0)), (SET_ALIAS, (1, 0, 0))],
        // two aliases of the third
        _ => &[(SET_ALIAS, (0, 3, 0)), (SET_ALIAS, (1, 3, 0)), (SET_STORED, (0, 1, 0))],
    };
    for &(op, args) in steps {
        step(p, io, m, w, op, Some(args));
    }
}

/// After any history everything visible is what the model says, for whoever opens the
/// storage next as well.
pub fn h_history() {
    let w = World::new();
    let io = Shared::new();
    let mut p = Passwords::new(io);
    p.reset(secret("primary")).unwrap();
    check(io.saved(), "a new storage is saved");
    let mut m = Ref::default();
    setup(&mut p, io, &mut m, &w, param("setup", 0));
    let only = param("op", 99) as u32;
    for i in 0..param("ops", 1) {
        let op = if i == 0 && only != 99 { only } else { choice(OPS, "operation") };
        step(&mut p, io, &mut m, &w, op, None);
    }
    let again = if param("reload", 0) == 1 {
        drop(p);
        let mut q = Passwords::new(io.reopen());
        check(q.initialized(), "the storage is recognized");
        check(q.unlock(secret("primary")).is_ok(), "the primary password unlocks it");
        q
    } else {
        p
    };
    compare(&again, &m, &w.sites, &w.names, &w.revs);
    reach("compared");
}
