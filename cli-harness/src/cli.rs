//! Symbolic harnesses over the command line tool: its main function with arguments, standard
//! input and files.
use crate::model::{self, *};
use crate::util::*;
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_io::FileIO;
use psym::{assume, attempt, bytes, check, choice, fork, param, reach, Outcome};
use std::io::Write;
use std::path::Path;

const FILE: &str = "/scratch/s.json";
const PRIMARY: &str = "secret1";

/// What a run of the tool left behind.
pub struct Run {
    pub code: i32,
    pub panicked: bool,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
/// The tool as a process: arguments (after the program's name and the storage), input.
pub fn pfp(args: &[&str], input: &[u8]) -> Run {
    let mut a = vec!["pfp-cli", "-c", FILE, "--stdin-passwords"];
    a.extend_from_slice(args);
    pfp_args(&a, input)
}
pub fn pfp_args(a: &[&str], input: &[u8]) -> Run {
    psym::args(a);
    psym::fs::stdin(input);
    let r = attempt(|| {
        let code = std::process::Termination::report(crate::cli_main());
        let _ = std::io::stdout().flush();
        let c: u8 = unsafe { std::mem::transmute_copy(&code) };
        c as i32
    });
    let out = psym::fs::output(1);
    let err = psym::fs::output(2);
    let (code, panicked) = match r {
        Outcome::Done(c) => (c, false),
        Outcome::Exit(c) => (c, false),
        _ => (101, true),
    };
    check(!panicked, "the tool doesn't panic");
    Run { code, panicked, out, err }
}
/// Input made of lines.
fn lines(l: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for x in l {
        v.extend_from_slice(x);
        v.push(b'\n');
    }
    v
}
/// True if the text contains the other, as one value.
fn has(text: &[u8], what: &[u8]) -> bool {
    let mut any = false;
    if what.len() <= text.len() {
        for i in 0..=text.len() - what.len() {
            any |= same(&text[i..i + what.len()], what);
        }
    }
    any
}
fn ends(text: &[u8], what: &[u8]) -> bool {
    text.len() >= what.len() && same(&text[text.len() - what.len()..], what)
}
/// `n` ASCII characters, no line feed among them.
fn ascii(n: usize, name: &str) -> Vec<u8> {
    let b = bytes(n, name);
    let mut ok = true;
    for c in &b {
        ok &= (*c < 128) & (*c != b'\n');
    }
    assume(ok);
    b
}
/// `n` printable characters other than space, quotes and backslash.
fn plain(n: usize, name: &str) -> Vec<u8> {
    let b = bytes(n, name);
    let mut ok = true;
    for c in &b {
        ok &= (*c < 127) & (*c > b' ') & (*c != b'"') & (*c != b'\\');
    }
    assume(ok);
    b
}
/// What the tool makes of white space around a line.
fn trimmed(b: &[u8]) -> Vec<u8> {
    let white = |c: u8| fork((c == b' ') | ((c >= 9) & (c <= 13)));
    let (mut i, mut j) = (0, b.len());
    while i < j && white(b[i]) {
        i += 1;
    }
    while i < j && white(b[j - 1]) {
        j -= 1;
    }
    b[i..j].to_vec()
}

const SITES: [&str; 4] = ["example.com", "example.net", "example.org", "empty.example"];
const NAMES: [&str; 2] = ["me", "you"];
const REVS: [&str; 2] = ["", "2"];
fn open() -> Passwords<FileIO> {
    Passwords::new(FileIO::load(Path::new(FILE)).unwrap_or_else(|_| {
        check(false, "the storage file can be read");
        unreachable!()
    }))
}
/// A storage with something of everything, and what it is supposed to hold.
fn prepare(pw: &[u8], notes: &[u8]) -> Ref {
    let mut m = Ref::default();
    let mut p = Passwords::new(FileIO::new(Path::new(FILE)));
    let mut ok = p.reset(secret(PRIMARY)).is_ok();
    ok &= p.set_stored("example.com", "me", "1", secret_bytes(pw)).is_ok();
    m.set(b"example.com", b"me", b"1", Kind::Stored(pw.to_vec()));
    ok &= p.set_generated("example.com", "me", "2", 12, charset(7)).is_ok();
    m.set(b"example.com", b"me", b"2", Kind::Generated(12, 7));
    ok &= p.set_generated("example.com", "you", "1", 16, charset(15)).is_ok();
    m.set(b"example.com", b"you", b"1", Kind::Generated(16, 15));
    ok &= p.set_stored("example.net", "me", "", secret("xyz")).is_ok();
    m.set(b"example.net", b"me", b"", Kind::Stored(b"xyz".to_vec()));
    ok &= p.set_notes("example.com", "you", "1", secret_bytes(notes)).is_ok();
    m.set_notes(b"example.com", b"you", b"1", notes);
    ok &= p.set_alias("example.org", "example.com").is_ok();
    m.set_alias(b"example.org", b"example.com");
    ok &= p.set_generated("empty.example", "me", "1", 8, charset(1)).is_ok();
    ok &= p.remove("empty.example", "me", "1").is_ok();
    m.set(b"empty.example", b"me", b"", Kind::Generated(8, 1));
    m.remove(b"empty.example", b"me", b"");
    check(ok, "the storage is prepared");
    m
}
/// What the file holds is what it should.
fn holds(m: &Ref, primary: &[u8]) {
    let mut p = open();
    check(p.initialized(), "the storage is initialized");
    check(p.unlock(secret_bytes(primary)).is_ok(), "the primary password unlocks the storage");
    let sites: Vec<Vec<u8>> = SITES.iter().map(|s| s.as_bytes().to_vec()).collect();
    let names: Vec<Vec<u8>> = NAMES.iter().map(|s| s.as_bytes().to_vec()).collect();
    model::compare(&p, m, &sites, &names, &REVS);
}
fn file() -> Vec<u8> {
    psym::fs::read(FILE).unwrap_or_default()
}
fn same_file(a: &[u8]) -> bool {
    let b = file();
    a.len() == b.len() && same(a, &b)
}

/// Existing data are replaced if and only if the user agrees.
pub fn h_confirm() {
    let n = param("n", 1) as usize;
    let what = param("what", 0);
    let names = what < 2 && param("names", 0) == 1;
    let mut m = prepare(b"abc", b"");
    let before = file();
    let answer = ascii(n, "answer");
    // the answer to the question when it is asked again
    let again: &[u8] = if choice(2, "second answer") == 0 { b"n" } else { b"Y" };
    let site = ["example.com", "www.example.com", "example.org"][if names { choice(3, "site") as usize } else { 0 }];
    let rev: &[&str] = [&[][..], &["-r", "1"][..], &["--revision", ""][..]][if names { choice(3, "revision") as usize } else { 0 }];
    let t = trimmed(&answer);
    let low: Vec<u8> = t.iter().map(|c| c | if fork((*c >= b'A') & (*c <= b'Z')) { 32 } else { 0 }).collect();
    let is = |w: &[u8]| low.len() == w.len() && fork(same(&low, w));
    let agreed = if is(b"y") || is(b"yes") {
        true
    } else if low.is_empty() || is(b"n") || is(b"no") {
        false
    } else {
        again == b"Y"
    };
    let asked_again = !(is(b"y") || is(b"yes") || low.is_empty() || is(b"n") || is(b"no"));
    let mut input: Vec<&[u8]> = vec![];
    let mut args: Vec<&str> = vec![];
    match what {
        0 => args.extend_from_slice(&["add", site, "me", "-l", "5", "-s"]),
        1 => args.extend_from_slice(&["add-stored", site, "me"]),
        _ => args.extend_from_slice(&["set-primary"]),
    }
    if what < 2 {
        input.push(PRIMARY.as_bytes());
    }
    args.extend_from_slice(rev);
    input.push(&answer);
    if asked_again {
        input.push(again);
    }
    match what {
        0 => {}
        1 => input.push(b"new one"),
        _ => input.extend_from_slice(&[b"another", b"another"]),
    }
    let r = pfp(&args, &lines(&input));
    check(r.code == 0, "exit status 0 whatever the answer");
    if !agreed {
        check(same_file(&before), "nothing changes without the user's consent");
        reach("refused");
    } else {
        reach("agreed");
        match what {
            0 => {
                m.set(b"example.com", b"me", b"", Kind::Generated(5, 7));
            }
            1 => {
                m.set(b"example.com", b"me", b"", Kind::Stored(b"new one".to_vec()));
            }
            _ => m = Ref::default(),
        }
        holds(&m, if what == 2 { b"another" } else { PRIMARY.as_bytes() });
    }
}
/// No question where there is nothing to lose, or with the option that says so.
pub fn h_unasked() {
    let mut m = prepare(b"abc", b"");
    let what = choice(5, "what");
    let y = ["-y", "--assume-yes"][choice(2, "option") as usize];
    let me = b"me";
    let mut primary: &[u8] = PRIMARY.as_bytes();
    let r = match what {
        0 => {
            m.set(b"example.com", me, b"", Kind::Generated(16, 15));
            pfp(&["add", y, "example.com", "me"], b"secret1\n")
        }
        1 => {
            m.set(b"example.com", me, b"", Kind::Stored(b"new".to_vec()));
            pfp(&["add-stored", "example.com", "me", y], b"secret1\nnew\n")
        }
        2 => {
            m = Ref::default();
            primary = b"another";
            pfp(&["set-primary", y], b"another\nanother\n")
        }
        3 => {
            m.set(b"example.net", b"you", b"", Kind::Generated(16, 15));
            pfp(&["add", "example.net", "you"], b"secret1\n")
        }
        _ => {
            m.set(b"example.net", me, b"2", Kind::Stored(b"new".to_vec()));
            pfp(&["add-stored", "example.net", "me", "-r", "2"], b"secret1\nnew\n")
        }
    };
    check(r.code == 0, "exit status 0");
    holds(&m, primary);
    reach("done");
}

/// A new primary password is taken if and only if it is long enough and repeated correctly.
pub fn h_primary() {
    let (n1, n2) = (param("n1", 6) as usize, param("n2", 6) as usize);
    let existing = choice(2, "existing") == 1;
    if existing {
        prepare(b"abc", b"");
    }
    let before = psym::fs::read(FILE);
    // characters of two and three bytes, or many others, before the typed ones
    let wide = param("wide", 0) as usize;
    let before_it = "\u{e4}\u{20ac}".repeat(wide) + &pad(param("long", 0));
    let p1 = [before_it.as_bytes(), &ascii(n1, "password")].concat();
    let p2 = [before_it.as_bytes(), &ascii(n2, "repetition")].concat();
    let (t1, t2) = (trimmed(&p1), trimmed(&p2));
    let good = t1.len() - 3 * wide >= 6 && model::eq(&t1, &t2);
    let args: &[&str] = if existing { &["set-primary", "-y"] } else { &["set-primary"] };
    let r = pfp(args, &lines(&[&p1, &p2]));
    check((r.code == 0) == good, "exit status 0 if and only if the password is set");
    if good {
        holds(&Ref::default(), &t1);
        reach("set");
    } else {
        check(r.code == 1, "exit status 1 otherwise");
        check(!r.err.is_empty(), "the user is told why");
        let after = psym::fs::read(FILE);
        check(after.is_some() == before.is_some(), "no file is made");
        check(after.unwrap_or_default() == before.unwrap_or_default(), "nothing changes");
        reach("refused");
    }
}
/// A file that is no storage file any more (or never was) isn't replaced without asking either.
pub fn h_overwrite() {
    let n = param("n", 3) as usize;
    prepare(b"abc", b"");
    let mut f = file();
    match choice(4, "file") {
        0 => f = bytes(n, "contents"),
        1 => f.truncate(f.len() / 2),
        2 => {
            let i = f.len() / 2;
            psym::fill(&mut f[i..i + 1], "changed character");
        }
        _ => f = br#"{"application":"other","format":3,"data":{}}"#.to_vec(),
    }
    psym::fs::write(FILE, &f);
    let agreed = choice(2, "agreed") == 1;
    let r = if agreed { pfp(&["set-primary"], b"y\nanother\nanother\n") } else { pfp(&["set-primary"], b"n\nanother\nanother\n") };
    check(r.code == 0, "exit status 0 whatever the answer");
    if agreed {
        holds(&Ref::default(), b"another");
        reach("agreed");
    } else {
        check(same_file(&f), "nothing changes without the user's consent");
        reach("refused");
    }
}

/// The options of `add`: what is accepted, and what the entry added is.
pub fn h_options() {
    let n = param("n", 1) as usize;
    let mut m = prepare(b"abc", b"");
    let before = file();
    let flags = if param("flags", 16) < 16 { param("flags", 0) as usize } else { choice(16, "flags") as usize };
    let mut args = vec!["add", "example.net", "you"];
    for (i, (a, b)) in [("-w", "--no-lower"), ("-u", "--no-upper"), ("-d", "--no-digit"), ("-s", "--no-symbol")].iter().enumerate() {
        if flags >> i & 1 == 1 {
            args.push(if param("long", 0) == 1 { b } else { a });
        }
    }
    let value = plain(n, "length");
    let mut good = flags != 15;
    let mut len = 0;
    if n == 0 {
        len = 16;
    } else {
        // a plus sign is nothing to rely on
        assume(value[0] != b'+');
        for (i, c) in value.iter().enumerate() {
            if param("digits", 0) >> i & 1 == 1 {
                assume((*c >= b'0') & (*c <= b'9'));
            }
        }
        for c in &value {
            let d = *c;
            good &= fork((d >= b'0') & (d <= b'9'));
            if good {
                len = len * 10 + psym::concretize((d - b'0') as usize);
            }
        }
        good &= (4..=24).contains(&len);
    }
    let v = text(&value);
    if n > 0 {
        args.push(if param("long", 0) == 1 { "--length" } else { "-l" });
        args.push(&v);
    }
    let r = pfp(&args, b"secret1\n");
    check((r.code == 0) == good, "accepted if and only if it makes sense");
    if good {
        m.set(b"example.net", b"you", b"", Kind::Generated(len, 15 & !(flags as u32)));
        holds(&m, PRIMARY.as_bytes());
        reach("added");
    } else {
        check(!r.err.is_empty(), "the user is told why");
        check(same_file(&before), "nothing changes");
        reach("refused");
    }
}
const ADDR: [&str; 4] = ["example.com", "www.example.net", "example.org", "empty.example"];
/// One command on the entry with arbitrary name: it does what it says to that entry.
pub fn h_command() {
    let op = param("op", 0);
    let n = param("n", 2) as usize;
    let pw = plain(n, "stored password");
    let notes = plain(n, "notes");
    let mut m = prepare(&pw, &notes);
    let before = file();
    let fixed = param("fixed", 0) == 1;
    let site = ADDR[if fixed { 0 } else { choice(4, "site") as usize }];
    let name = if op < 6 { NAMES[if fixed { 0 } else { choice(2, "name") as usize }] } else { "" };
    let revs: [(&str, &[&str]); 5] = [("", &[]), ("2", &["-r", "2"]), ("1", &["--revision=1"]), ("", &["-r", ""]), ("3", &["-r3"])];
    let (rev, opt) = if op < 6 { revs[if fixed { 0 } else { choice(5, "revision") as usize }] } else { ("", &[][..]) };
    let found = m.find(site.as_bytes(), name.as_bytes(), rev.as_bytes());
    let shown = if op == 0 && found.is_some() {
        let mut p = open();
        check(p.unlock(secret(PRIMARY)).is_ok(), "unlock");
        let e = &m.entries[found.unwrap()];
        match &e.kind {
            Kind::Stored(pw) => pw.clone(),
            _ => {
                use secrecy::ExposeSecret;
                p.get(&text(&e.site), name, rev).unwrap().expose_secret().as_bytes().to_vec()
            }
        }
    } else {
        vec![]
    };
    let old_notes = found.map(|i| m.entries[i].notes.clone()).unwrap_or_default();
    let typed = if fixed { ascii(n, "typed") } else { plain(n, "typed") };
    let mut input = vec![PRIMARY.as_bytes().to_vec()];
    let mut args: Vec<&str> = vec![];
    let (s, nm, rv) = (site.as_bytes(), name.as_bytes(), rev.as_bytes());
    let want = match op {
        0 => {
            args.extend_from_slice(&["show", site, name]);
            if found.is_some() { End::Fine } else { End::Missing }
        }
        1 => {
            args.extend_from_slice(&["remove", site, name]);
            m.remove(s, nm, rv)
        }
        2 => {
            args.extend_from_slice(&["notes", site, name]);
            if found.is_some() { End::Fine } else { End::Missing }
        }
        3 => {
            args.extend_from_slice(&["notes", site, name, "-s"]);
            input.push(typed.clone());
            m.set_notes(s, nm, rv, &typed)
        }
        4 => {
            args.extend_from_slice(&["add-stored", site, name, "-y"]);
            input.push(typed.clone());
            let t = trimmed(&typed);
            m.set(s, nm, rv, Kind::Stored(t))
        }
        5 => {
            args.extend_from_slice(&["add", "-l", "7", "-ud", site, name, "-y"]);
            m.set(s, nm, rv, Kind::Generated(7, 9))
        }
        6 => {
            args.extend_from_slice(&["alias", site]);
            if m.alias(s).is_some() { End::Fine } else { End::NoAlias }
        }
        7 => {
            let target = ADDR[choice(4, "target") as usize];
            args.extend_from_slice(&["alias", site, target]);
            m.set_alias(s, target.as_bytes())
        }
        _ => {
            args.extend_from_slice(&["alias", "-r", site]);
            m.remove_alias(s)
        }
    };
    args.extend_from_slice(opt);
    let l: Vec<&[u8]> = input.iter().map(|x| &x[..]).collect();
    let r = pfp(&args, &lines(&l));
    check((r.code == 0) == (want == End::Fine), "exit status 0 if and only if it can be done");
    if want == End::Fine {
        match op {
            0 => check(ends(&r.out, &lines(&[&shown])), "the password is shown"),
            2 | 3 if !old_notes.is_empty() => check(has(&r.out, &lines(&[&old_notes])), "the notes are shown"),
            6 => check(has(&r.out, b"example.com"), "the site it is an alias of is shown"),
            _ => {}
        }
        reach("done");
    } else {
        check(r.code == 1 && !r.err.is_empty(), "the user is told why not");
        reach("refused");
    }
    if op == 0 || op == 2 || op == 6 || want != End::Fine {
        check(same_file(&before), "nothing changes");
    } else {
        holds(&m, PRIMARY.as_bytes());
    }
}

/// Wrong primary passwords: asked again, until the right one is given; nothing is done before.
pub fn h_again() {
    let n = param("n", 7) as usize;
    let mut m = prepare(b"abc", b"");
    let before = file();
    let attempt = ascii(n, "attempt");
    let t = trimmed(&attempt);
    let right = model::eq(&t, PRIMARY.as_bytes());
    let cmd = choice(4, "command");
    let args: &[&str] = [&["notes", "-s", "example.com", "me"][..], &["add-stored", "example.net", "you"], &["show", "example.com", "me"], &["list", "-s", "*", "me"]][cmd as usize];
    let r = pfp(args, &lines(&[&attempt, PRIMARY.as_bytes(), b"a note"]));
    check(r.code == 0, "done with the right password in the end");
    // whatever follows the right password is what the command asks for
    let line: &[u8] = if right { PRIMARY.as_bytes() } else { b"a note" };
    match cmd {
        0 => {
            m.set_notes(b"example.com", b"me", b"", line);
        }
        1 => {
            m.set(b"example.net", b"you", b"", Kind::Stored(line.to_vec()));
        }
        _ => {
            check(same_file(&before), "nothing changes");
            check(has(&r.out, b"abc\n"), "the password is shown");
        }
    }
    if !right {
        check(!r.err.is_empty(), "the user is told that it is wrong");
        reach("wrong");
    } else {
        reach("right");
    }
    if cmd < 2 {
        holds(&m, PRIMARY.as_bytes());
    }
}

/// Without a good storage file everything is refused, and the file left as it is.
pub fn h_nothing() {
    let kind = param("kind", 0);
    let n = param("n", 2) as usize;
    let mut want = vec![];
    if kind > 0 {
        prepare(b"abc", b"");
        want = file();
    }
    match kind {
        0 => {}
        1 => want = bytes(n, "contents"),
        2 => {
            let step = param("step", 1) as u32;
            let end = want.iter().rposition(|c| *c == b'}').unwrap();
            let cut = choice(end as u32 / step, "cut") * step;
            want.truncate(cut as usize);
        }
        3 => want = br#"{"application":"pfp","format":3,"data":{}}"#.to_vec(),
        4 => want = br#"{"application":"pfp","format":2,"data":{"salt":"abc","hmac-secret":"abc"}}"#.to_vec(),
        _ => want = br#"{"application":"pfp","format":3,"data":{"salt":"YWJj","other":"abc"}}"#.to_vec(),
    }
    if kind > 0 {
        psym::fs::write(FILE, &want);
    }
    let cmds: [&[&str]; 9] = [
        &["list"],
        &["add", "example.com", "you"],
        &["add-stored", "example.com", "you"],
        &["remove", "example.com", "me"],
        &["show", "example.com", "me"],
        &["notes", "example.com", "me"],
        &["alias", "a.example", "example.com"],
        &["alias", "a.example"],
        &["alias", "-r", "example.org"],
    ];
    let cmd = cmds[if param("cmd", 9) < 9 { param("cmd", 0) } else { choice(9, "command") as u64 } as usize];
    let r = pfp(cmd, b"");
    check(r.code == 1, "exit status 1");
    check(!r.err.is_empty(), "the user is told why");
    let f = psym::fs::read(FILE);
    check(f.is_some() == (kind > 0), "no file is made");
    let f = f.unwrap_or_default();
    check(f.len() == want.len() && same(&f, &want), "the file stays as it is");
    reach("refused");
}
enum Piece {
    Text(Vec<u8>),
    /// a recovery code of this password, every line with eight spaces in front
    Code(Vec<u8>),
}
/// `list` shows everything that was asked for, once, and nothing else.
pub fn h_list_cmd() {
    let n = param("n", 2) as usize;
    let pw = plain(n, "stored password");
    let notes = plain(n, "notes");
    let mut m = prepare(&pw, &notes);
    {
        let mut p = open();
        let mut ok = p.unlock(secret(PRIMARY)).is_ok();
        ok &= p.set_alias("alias.example", "example.com").is_ok();
        ok &= p.set_alias("ghost.example", "nowhere.example").is_ok();
        ok &= p.set_alias("b.example", "example.com").is_ok();
        check(ok, "aliases are set");
        m.set_alias(b"alias.example", b"example.com");
        m.set_alias(b"b.example", b"example.com");
        m.set_alias(b"ghost.example", b"nowhere.example");
    }
    let before = file();
    let flags = choice(8, "flags");
    let (show, codes, verbose) = (flags & 1 == 1, flags & 2 == 2, flags & 4 == 4);
    // the sites a pattern stands for, with the aliases shown, and sites without entries it finds
    let domains: [(&[&str], &[(&str, &[&str])], &[&str]); 8] = [
        (&[], &[("example.com", &["alias.example", "b.example", "example.org"]), ("example.net", &[])], &["empty.example"]),
        (&["*"], &[("example.com", &["alias.example", "b.example", "example.org"]), ("example.net", &[])], &["empty.example"]),
        (&["example.com"], &[("example.com", &["alias.example", "b.example", "example.org"])], &[]),
        (&["example.org"], &[("example.com", &["example.org"])], &[]),
        (&["*.net"], &[("example.net", &[])], &[]),
        (&["empty*"], &[], &["empty.example"]),
        (&["ghost.example"], &[], &[]),
        (&["a????.*"], &[("example.com", &["alias.example"])], &[]),
    ];
    let d = &domains[choice(8, "domain") as usize];
    let name = if d.0.is_empty() { "*" } else { ["*", "me", "y*", "x", "*x", "?e"][choice(6, "name") as usize] };
    let mut args = vec!["list"];
    args.extend_from_slice(d.0);
    if !d.0.is_empty() && name != "*" {
        args.push(name);
    }
    for (i, f) in ["-s", "-r", "-v"].iter().enumerate() {
        if flags >> i & 1 == 1 {
            args.push(f);
        }
    }
    let mut want: Vec<Piece> = vec![];
    let mut p = open();
    check(p.unlock(secret(PRIMARY)).is_ok(), "unlock");
    let mut any = false;
    for (site, aliases) in d.1 {
        let mut head = format!("Passwords for {}:\n", site);
        if verbose && !aliases.is_empty() {
            head += &format!("    Aliases: {}\n", aliases.join(",\n             "));
        }
        let mut first = true;
        for (nm, rev) in [("me", ""), ("me", "2"), ("you", "")] {
            if name == "x" || name == "*x" || (name == "me" || name == "?e") && nm != "me" || name == "y*" && nm != "you" {
                continue;
            }
            let e = match m.find(site.as_bytes(), nm.as_bytes(), rev.as_bytes()) {
                Some(i) => &m.entries[i],
                None => continue,
            };
            if first {
                want.push(Piece::Text(head.clone().into_bytes()));
                first = false;
                any = true;
            }
            let kind = if let Kind::Stored(_) = e.kind { "stored" } else { "generated" };
            want.push(Piece::Text(if rev.is_empty() { format!("    {} ({})\n", nm, kind) } else { format!("    {} ({}, revision: {})\n", nm, kind, rev) }.into_bytes()));
            if show {
                use secrecy::ExposeSecret;
                let v = match &e.kind {
                    Kind::Stored(pw) => pw.clone(),
                    _ => p.get(site, nm, rev).unwrap().expose_secret().as_bytes().to_vec(),
                };
                want.push(Piece::Text([b"        ", &v[..], b"\n"].concat()));
            }
            if let (Kind::Stored(pw), true) = (&e.kind, codes) {
                want.push(Piece::Text(b"        Recovery code:\n".to_vec()));
                want.push(Piece::Code(pw.clone()));
            }
            if verbose && !e.notes.is_empty() {
                want.push(Piece::Text([b"        Notes: ", &e.notes[..], b"\n"].concat()));
            }
            if let (Kind::Generated(len, cs), true) = (&e.kind, verbose) {
                let chars: Vec<&str> = [(1, "abc"), (2, "ABC"), (4, "789"), (8, "+^;")].iter().filter(|x| cs & x.0 != 0).map(|x| x.1).collect();
                want.push(Piece::Text(format!("        Length: {}\n        Allowed characters: {}\n", len, chars.join(" ")).into_bytes()));
            }
        }
    }
    if !any {
        want.push(Piece::Text(b"No matching passwords found.\n".to_vec()));
    }
    let r = pfp(&args, b"secret1\n");
    check(r.code == 0, "exit status 0");
    let code_lines = |pw: &Vec<u8>| (45 + pw.len() + 13) / 14;
    let len: usize = want.iter().map(|x| match x {
        Piece::Text(t) => t.len(),
        Piece::Code(pw) => code_lines(pw) * 38,
    }).sum();
    let prompt: &[u8] = b"Your primary password: ";
    check(r.out.len() == prompt.len() + len, "as much output as expected");
    let mut at = prompt.len();
    let mut texts = true;
    for x in &want {
        match x {
            Piece::Text(t) => {
                texts &= same(&r.out[at..at + t.len()], t);
                at += t.len();
            }
            Piece::Code(pw) => {
                use secrecy::ExposeSecret;
                let k = code_lines(pw) * 38;
                let back = p.decode_recovery_code(&text(&r.out[at..at + k]));
                match back {
                    Ok(b) => check(same(b.expose_secret().as_bytes(), pw), "the recovery code is one of the password"),
                    Err(_) => check(false, "the recovery code can be decoded"),
                }
                at += k;
                reach("code");
            }
        }
    }
    check(texts, "what was asked for is shown");
    // sites without passwords are forgotten when they turn up
    if name == "*" {
        for s in d.2 {
            m.remove_site(s.as_bytes());
        }
    }
    if name == "*" && !d.2.is_empty() {
        reach("cleaned");
        holds(&m, PRIMARY.as_bytes());
    } else {
        check(same_file(&before), "nothing changes");
    }
    reach("listed");
}

/// Entering a recovery code line by line.
pub fn h_code() {
    let n = param("n", 3) as usize;
    let kind = param("kind", 0);
    let pw = plain(n, "password");
    let mut m = prepare(b"abc", b"");
    let before = file();
    let code = {
        let mut p = open();
        let primary: &[u8] = if kind == 5 { b"something else" } else { PRIMARY.as_bytes() };
        if kind == 5 {
            p = Passwords::new(FileIO::new(Path::new("/scratch/other.json")));
            check(p.reset(secret_bytes(primary)).is_ok(), "reset");
        } else {
            check(p.unlock(secret_bytes(primary)).is_ok(), "unlock");
        }
        let sp = pfp::storage_types::StoredPassword::new("a", "b", "", secret_bytes(&pw));
        p.get_recovery_code(&sp).unwrap()
    };
    let l: Vec<Vec<u8>> = code.split('\n').map(|x| x.as_bytes().to_vec()).collect();
    let k = l.len();
    let mut input: Vec<Vec<u8>> = vec![PRIMARY.as_bytes().to_vec()];
    let mut good = true;
    let mut told = false;
    match kind {
        // every line as it is, or in a form a user may choose
        0 => match choice(5, "form") {
            0 => input.extend_from_slice(&l),
            1 => input.extend(l.iter().map(|x| x.to_ascii_lowercase())),
            2 => input.push(l.join(&b' ')),
            3 => {
                input.push(l[..2].join(&b' '));
                input.extend_from_slice(&l[2..]);
            }
            _ => input.extend(l.iter().map(|x| x.iter().filter(|c| **c != b'-' && **c != b':').cloned().collect())),
        },
        // a wrong symbol in a line, which has to be entered again
        1 => {
            let at = choice(k as u32, "line") as usize;
            let mut wrong = l[at].clone();
            let i = choice(24, "place") as usize;
            let i = i / 4 * 5 + i % 4;
            let s = b"ABCDEFGHJKLMNPQRSTUVWXYZ23456789";
            let mut t = [0u8; 256];
            for c in s {
                t[*c as usize] = 1;
            }
            let x = bytes(1, "symbol")[0];
            assume(t[x as usize] == 1);
            assume(x != wrong[i]);
            wrong[i] = x;
            // one in 256 has the right checksum by chance
            let mut p = open();
            check(p.unlock(secret(PRIMARY)).is_ok(), "unlock");
            let mut typed = l[..at].to_vec();
            typed.push(wrong.clone());
            assume(matches!(p.decode_recovery_code(&text(&typed.join(&b'\n'))), Err(Error::RecoveryCodeChecksumMismatch { line }) if line == at));
            input.extend_from_slice(&l[..at]);
            input.push(wrong);
            input.extend_from_slice(&l[at..]);
            told = true;
        }
        // giving up after some lines
        2 => {
            input.extend_from_slice(&l[..choice(k as u32, "lines") as usize]);
            input.push(vec![]);
            good = false;
        }
        // more than the code
        3 => {
            input.extend_from_slice(&l[..k - 1]);
            let mut last = l[k - 1].clone();
            last.extend_from_slice([&b"A"[..], b" ABCD-EF", b"ABCD-EFGH-JKLM:NPQR-STUV-WXYZ"][choice(3, "extra") as usize]);
            input.push(last);
            let a: &[u8] = [&b""[..], b"y", b"n", b"no", b"Yes"][choice(5, "answer") as usize];
            input.push(a.to_vec());
            good = !a.starts_with(b"n");
        }
        // one of the lines is entered twice, or left out at first
        4 => {
            let at = choice(k as u32 - 1, "line") as usize;
            input.extend_from_slice(&l[..=at]);
            input.push(l[if choice(2, "repeated") == 1 { at } else if at + 2 < k { at + 2 } else { 0 }].clone());
            input.extend_from_slice(&l[at + 1..]);
            told = true;
        }
        // several lines at once, one of them wrong; what is good of it isn't entered again
        6 => {
            let at = 1 + choice(k as u32 - 1, "line") as usize;
            let from = choice(at as u32, "first line at once") as usize;
            let to = at + 1 + choice((k - at) as u32, "last line at once") as usize;
            let mut all = l[from..to].to_vec();
            let w = all[at - from].clone();
            all[at - from] = w.iter().rev().cloned().collect();
            let mut p = open();
            check(p.unlock(secret(PRIMARY)).is_ok(), "unlock");
            let typed = [&l[..from], &all[..]].concat();
            assume(matches!(p.decode_recovery_code(&text(&typed.join(&b'\n'))), Err(Error::RecoveryCodeChecksumMismatch { line }) if line == at));
            input.extend_from_slice(&l[..from]);
            input.push(all.join(&b' '));
            if choice(2, "wrong again") == 1 {
                input.push(all[at - from].clone());
            }
            input.extend_from_slice(&l[at..]);
            told = true;
        }
        // in pieces that are no lines
        7 => {
            let all = l.join(&b' ');
            let at = 1 + choice(all.len() as u32 - 1, "cut") as usize;
            input.push(all[..at].to_vec());
            input.push(all[at..].to_vec());
        }
        8 => {
            let all: Vec<u8> = l.concat();
            let size = 1 + choice(40, "size") as usize;
            input.extend(all.chunks(size).map(|x| x.to_vec()));
        }
        // a code made with another primary password
        _ => {
            input.extend_from_slice(&l);
            good = false;
        }
    }
    let i: Vec<&[u8]> = input.iter().map(|x| &x[..]).collect();
    let r = pfp(&["add-stored", "-c", "example.net", "you"], &lines(&i));
    check((r.code == 0) == good, "exit status 0 if and only if the code was accepted");
    if good {
        m.set(b"example.net", b"you", b"", Kind::Stored(pw));
        holds(&m, PRIMARY.as_bytes());
        check(!told || has(&r.err, b"please try again") || has(&r.err, b"doesn't seem valid"), "a wrong line is reported");
        reach("stored");
    } else {
        check(same_file(&before), "nothing changes");
        reach("refused");
    }
}
/// The shell with the given lines; its history goes to a file of its own.
fn shell(input: &[&[u8]]) -> Run {
    pfp(&["shell", "-s", "/scratch/history"], &lines(input))
}
/// A command in the shell: its line, what it asks for after that, and what it is to do.
fn shell_command(i: u32, m: &mut Ref, pw: &[u8]) -> (&'static [u8], Vec<Vec<u8>>, bool) {
    let none = vec![];
    match i {
        0 => {
            m.set(b"example.net", b"you", b"", Kind::Generated(16, 15));
            (b"add example.net you", none, true)
        }
        1 => {
            m.set(b"example.com", b"me", b"2", Kind::Stored(pw.to_vec()));
            (b"add-stored -r 2 -y www.example.com 'me'", vec![pw.to_vec()], true)
        }
        2 => {
            m.remove(b"example.com", b"me", b"");
            (b"remove \"example.org\" me", none, true)
        }
        3 => {
            m.remove_alias(b"example.org");
            (b"alias -r example.org", none, true)
        }
        4 => {
            m.set_alias(b"empty.example", b"example.net");
            (b"  alias empty.example   example.net", none, true)
        }
        5 => {
            m.set_notes(b"example.com", b"you", b"", pw);
            (b"notes --set example.com you", vec![pw.to_vec()], true)
        }
        6 => (b"show example.com you", none, true),
        7 => (b"list * me", none, true),
        8 => (b"help", none, false),
        9 => (b"set-primary", none, false),
        10 => (b"shell", none, false),
        11 => (b"set-primary -y", none, false),
        12 => (b"no-such-command x", none, false),
        13 => (b"add example.com", none, false),
        14 => (b"add \"example.com", none, false),
        15 => (b"", none, false),
        16 => (b"add example.com me -wuds", none, true),
        17 => (b"list --wrong", none, false),
        18 => (b"show nowhere.example me", none, true),
        _ => (b"help add", none, false),
    }
}
/// Commands in the shell: each does what it does on its own; the primary password is asked for
/// once, and again after locking; nothing secret goes to the history.
pub fn h_shell() {
    let pw = plain(param("n", 2) as usize, "typed");
    let mut m = prepare(b"abc", b"nn");
    let mut input: Vec<Vec<u8>> = vec![];
    let mut locked = true;
    let mut changes = false;
    let first = param("first", 20) as u32;
    for step in 0..param("steps", 2) {
        if step > 0 && choice(2, "lock") == 1 {
            input.push(b"lock".to_vec());
            locked = true;
        }
        let i = if step == 0 && first < 20 { first } else { choice(20, "command") };
        let (line, more, unlocks) = shell_command(i, &mut m, &pw);
        changes |= i < 6;
        input.push(line.to_vec());
        if unlocks && locked {
            if choice(2, "wrong password first") == 1 {
                input.push(b"wrong one".to_vec());
            }
            input.push(PRIMARY.as_bytes().to_vec());
            locked = false;
        }
        input.extend_from_slice(&more);
    }
    if choice(2, "exit") == 1 {
        input.push(b"exit".to_vec());
        // not read any more
        input.push(b"remove example.net me".to_vec());
        if locked {
            input.push(PRIMARY.as_bytes().to_vec());
        }
    }
    let before = file();
    let l: Vec<&[u8]> = input.iter().map(|x| &x[..]).collect();
    let r = shell(&l);
    check(r.code == 0, "the shell ends in peace");
    let h = psym::fs::read("/scratch/history").unwrap_or_default();
    check(!has(&h, PRIMARY.as_bytes()) && !has(&h, b"wrong one"), "no primary password in the history");
    if changes {
        holds(&m, PRIMARY.as_bytes());
    } else {
        check(same_file(&before), "nothing changes");
    }
    reach("done");
}
/// Words in the shell are the same as given to the command alone, whatever they look like.
pub fn h_shell_words() {
    let plain_words: [&str; 28] = [
        "#me", "a#b", "lock", "exit", "help", "shell", "set-primary", "quit", "add", "~", "~/x", "$HOME", "${x}", "!!", "!1", "a=b", "a;b", ";", "|", "a&b", "(x)", "[a-z]", "<x", "%1", "@x", "a,b", "\u{e9}t\u{e9}", "EXIT",
    ];
    let group = param("group", 0) as usize;
    let word = plain_words[group * 7 + choice(7, "word") as usize];
    let mut args = ["example.com", "you", "7"];
    let place = choice(3, "place") as usize;
    args[place] = word;
    let quoted = match choice(4, "quoted") {
        0 => word.to_string(),
        1 => format!("'{}'", word),
        2 => {
            assume(!word.contains('$'));
            format!("\"{}\"", word)
        }
        _ => {
            let c = word.chars().next().unwrap();
            format!("\\{}'{}'", c, &word[c.len_utf8()..])
        }
    };
    let mut shown = args.map(|x| x.to_string());
    shown[place] = quoted;
    let line = if choice(2, "revision first") == 1 {
        format!("add -r {} {} {}", shown[2], shown[0], shown[1])
    } else {
        format!("add {} {} -r {}", shown[0], shown[1], shown[2])
    };
    let mut m = prepare(b"abc", b"nn");
    let r = shell(&[line.as_bytes(), b"secret1", b"add example.net last", b"exit"]);
    check(r.code == 0, "the shell ends in peace");
    m.set(args[0].as_bytes(), args[1].as_bytes(), if args[2] == "1" { b"" } else { args[2].as_bytes() }, Kind::Generated(16, 15));
    m.set(b"example.net", b"last", b"", Kind::Generated(16, 15));
    holds(&m, PRIMARY.as_bytes());
    reach("done");
}
/// Any line the shell can't make sense of changes nothing and doesn't end it.
pub fn h_shell_line() {
    let mut m = prepare(b"abc", b"nn");
    let mut line = [&b""[..], b"add '", b"show '", b"show example.com me -"][param("kind", 0) as usize].to_vec();
    // one character of every kind that means something to a parser of command lines
    let special = b"'\"\\-= \t#$*;|a1\x00\x7f";
    for _ in 0..param("n", 1) {
        line.push(special[choice(special.len() as u32, "character") as usize]);
    }
    let r = shell(&[b"alias -r example.org", b"secret1", &line, b"add example.net you", b"exit"]);
    check(r.code == 0, "the shell ends in peace");
    m.remove_alias(b"example.org");
    m.set(b"example.net", b"you", b"", Kind::Generated(16, 15));
    holds(&m, PRIMARY.as_bytes());
    reach("done");
}

/// Text to be kept secret: `n` arbitrary characters in the middle of others.
fn confidential(n: usize, long: usize, name: &str, mark: &str) -> Vec<u8> {
    let mut v = mark.as_bytes().to_vec();
    v.extend_from_slice(&plain(n, name));
    if param("quote", 0) == 1 {
        v.push(b'"');
    }
    v.extend_from_slice(mark.as_bytes());
    let mut i = 0u64;
    while v.len() < long {
        i += 1;
        v.extend_from_slice(format!("{}{:x}", mark, psym::model::mix(i)).as_bytes());
    }
    v.truncate(long.max(n + 7));
    psym::mark_secret(&v);
    v
}
/// When a command has ended, no memory holds a primary password, password or note any more.
pub fn h_residue() {
    let n = param("n", 3) as usize;
    let long = param("long", 0) as usize;
    let op = param("op", 0);
    let primary = confidential(n, 0, "primary password", "Pq7");
    let other = confidential(n, 0, "other primary password", "Oa4");
    let pw = confidential(n, if param("where", 0) == 0 { long } else { 0 }, "stored password", "Sx5");
    let notes = confidential(n, if param("where", 0) == 1 { long } else { 0 }, "notes", "Nk8");
    let typed = confidential(n, if param("where", 0) == 2 { long } else { 0 }, "typed", "Tj3");
    let mut p = Passwords::new(FileIO::new(Path::new(FILE)));
    let mut ok = p.reset(secret_bytes(&primary)).is_ok();
    ok &= p.set_stored("example.com", "me", "1", secret_bytes(&pw)).is_ok();
    ok &= p.set_notes("example.com", "me", "1", secret_bytes(&notes)).is_ok();
    ok &= p.set_generated("example.com", "you", "1", 16, charset(15)).is_ok();
    ok &= p.set_notes("example.com", "you", "1", secret_bytes(&notes)).is_ok();
    check(ok, "the storage is prepared");
    let code = {
        use secrecy::ExposeSecret;
        let g = p.get("example.com", "you", "1").unwrap();
        psym::mark_secret(g.expose_secret().as_bytes());
        let sp = pfp::storage_types::StoredPassword::new("a", "b", "", secret_bytes(&pw));
        p.get_recovery_code(&sp).unwrap()
    };
    // the keys derived from the primary password, and the secret in the storage
    for c in &psym::model::get().scrypt {
        psym::mark_secret(&c.out);
    }
    for c in psym::model::get().hmac.iter().take(1) {
        psym::mark_secret(&c.key);
    }
    let mut input: Vec<Vec<u8>> = vec![primary.clone()];
    let wrong = choice(2, "wrong password first") == 1;
    if wrong {
        input.insert(0, other.clone());
    }
    let args: &[&str] = match op {
        0 => &["show", "example.com", "me"],
        1 => &["show", "example.com", "you"],
        2 => &["notes", "example.com", "me"],
        3 => {
            input.push(typed.clone());
            &["notes", "-s", "example.com", "me"]
        }
        4 => {
            input.push(typed.clone());
            &["add-stored", "-y", "example.com", "me"]
        }
        5 => {
            input.push(b"y".to_vec());
            &["add", "-l", "20", "example.com", "me"]
        }
        6 => &["list", "-s", "-v"],
        7 => &["remove", "example.com", "me"],
        8 => &["alias", "example.org", "example.com"],
        9 => {
            input = vec![other.clone(), other.clone()];
            &["set-primary", "-y"]
        }
        10 => {
            input = vec![other.clone(), typed.clone()];
            &["set-primary", "-y"]
        }
        11 => {
            input.extend(code.split('\n').map(|x| x.as_bytes().to_vec()));
            &["add-stored", "-c", "example.net", "me"]
        }
        12 => &["show", "-q", "example.com", "you"],
        _ => {
            input.insert(0, b"notes -s example.com me".to_vec());
            input.push(typed.clone());
            input.extend([&b"show example.com you"[..], b"list -s", b"lock", b"show example.com me"].iter().map(|x| x.to_vec()));
            input.push(primary.clone());
            &["shell", "-s", "/scratch/history"]
        }
    };
    let l: Vec<&[u8]> = input.iter().map(|x| &x[..]).collect();
    let i = lines(&l);
    psym::args(&[&["pfp-cli", "-c", FILE, "--stdin-passwords"], args].concat());
    psym::fs::stdin(&i);
    psym::watch_secrets(true);
    let r = attempt(|| {
        let code = std::process::Termination::report(crate::cli_main());
        let c: u8 = unsafe { std::mem::transmute_copy(&code) };
        c as i32
    });
    psym::watch_secrets(false);
    check(r == Outcome::Done(if op == 10 { 1 } else { 0 }), "exit status as expected");
    check(!psym::secrets_left(), "no memory still in use holds a secret");
    reach("done");
}

/// The QR code shown is the one of the password, whatever that looks like.
pub fn h_qr() {
    let n = param("n", 2) as usize;
    let long = param("long", 0) as usize;
    let mut pw = plain(n, "stored password");
    while pw.len() < long {
        pw.push(b'a' + (psym::model::mix(pw.len() as u64) % 26) as u8);
    }
    prepare(&pw, b"");
    let before = file();
    let m = psym::model::get();
    if long <= 2953 {
        let (x, y) = (choice(param("columns", 20) as u32, "column") as usize, choice(11, "row") as usize * 2);
        for (i, b) in bytes(3, "modules").iter().enumerate() {
            let (x, y) = (x + i / 2, y + i % 2);
            if y < 21 {
                m.qr_modules.push((x, y, b & 1));
            }
        }
    }
    let r = pfp(&["show", "-q", "example.com", "me"], b"secret1\n");
    check(same_file(&before), "nothing changes");
    if long > 2953 {
        check(r.code == 1 && !r.err.is_empty() && m.qr_log.is_empty(), "too long for a QR code");
        reach("too long");
        return;
    }
    check(r.code == 0, "shown");
    let (data, modules) = &m.qr_log[m.qr_log.len() - 1];
    check(model::eq(data, &pw), "the QR code is of the password");
    let size = (1..=177).find(|k| k * k == modules.len()).unwrap();
    // the picture: the last lines, each from its first column on
    let mut rows: Vec<&[u8]> = r.out.split(|c| *c == b'\n').collect();
    check(rows.last().map(|x| x.is_empty()).unwrap_or(false), "output ends with a line feed");
    rows.pop();
    let need = (size + 1) / 2;
    check(rows.len() >= need, "as many lines as the QR code needs");
    let rows = &rows[rows.len() - need..];
    for (i, row) in rows.iter().enumerate() {
        let mut at = 0;
        let mut good = true;
        for x in 0..size {
            let mut v = 4;
            for (k, b) in [&b" "[..], b"\xe2\x96\x80", b"\xe2\x96\x84", b"\xe2\x96\x88"].iter().enumerate() {
                if row[at..].starts_with(b) {
                    v = k as u8;
                    at += b.len();
                    break;
                }
            }
            let up = modules[i * 2 * size + x];
            let low = if i * 2 + 1 < size { modules[(i * 2 + 1) * size + x] } else { 0 };
            good &= v == up | low << 1;
        }
        check(good, "every module is shown");
        check(at == row.len(), "nothing else in the line");
    }
    reach("shown");
}
/// Input may end at any place, and be no text.
pub fn h_ends() {
    let n = param("n", 2) as usize;
    let kind = param("kind", 0);
    let mut m = prepare(b"abc", b"");
    let before = file();
    let code = {
        let mut p = open();
        check(p.unlock(secret(PRIMARY)).is_ok(), "unlock");
        let sp = pfp::storage_types::StoredPassword::new("a", "b", "", secret("from a code"));
        p.get_recovery_code(&sp).unwrap()
    };
    let mut lines: Vec<&[u8]> = vec![PRIMARY.as_bytes()];
    let cmd = choice(if kind == 2 { 2 } else { 11 }, "command");
    let args: &[&str] = match cmd {
        0 => {
            lines.push(b"pw");
            &["add-stored", "example.net", "you"]
        }
        1 => {
            lines.push(b"note");
            &["notes", "-s", "example.com", "me"]
        }
        2 => {
            lines = vec![b"another", b"another"];
            &["set-primary", "-y"]
        }
        3 => {
            lines.extend(code.split('\n').map(|x| x.as_bytes()));
            &["add-stored", "-c", "example.net", "you"]
        }
        4 => &["list"],
        5 => &["add", "example.net", "you"],
        6 => &["remove", "example.com", "me"],
        7 => &["show", "example.com", "me"],
        8 => &["notes", "example.com", "me"],
        9 => &["alias", "a.example", "example.com"],
        _ => &["alias", "-r", "example.org"],
    };
    let mut input = vec![];
    let given = match kind {
        0 => choice(lines.len() as u32, "lines") as usize,
        1 => 0,
        _ => 1,
    };
    for l in &lines[..given] {
        input.extend_from_slice(l);
        input.push(b'\n');
    }
    // what the input ends with, without a line feed
    let rest = bytes(if kind == 0 { 0 } else { n }, "input");
    let mut ok = true;
    for c in &rest {
        ok &= *c != b'\n';
    }
    assume(ok);
    input.extend_from_slice(&rest);
    if kind < 2 {
        let r = pfp(args, &input);
        check(r.code == 1 && !r.err.is_empty(), "without input it is an error");
        check(same_file(&before), "nothing changes");
        reach("refused");
        return;
    }
    let valid = std::str::from_utf8(&rest).is_ok();
    let r = pfp(args, &input);
    check((r.code == 0) == valid, "text is taken, anything else an error");
    if r.code != 0 {
        check(!r.err.is_empty(), "the user is told why");
        check(same_file(&before), "nothing changes");
        reach("refused");
        return;
    }
    if cmd == 0 {
        // any white space of Unicode
        let t = std::str::from_utf8(&rest).unwrap().trim().as_bytes().to_vec();
        m.set(b"example.net", b"you", b"", Kind::Stored(t));
    } else {
        m.set_notes(b"example.com", b"me", b"", &rest);
    }
    holds(&m, PRIMARY.as_bytes());
    reach("stored");
}
/// `show`, `list -s` and `notes` show what is stored, whatever it is.
pub fn h_shown() {
    let n = param("n", 2) as usize;
    let long = param("long", 0);
    let what = param("what", 0);
    let mode = param("mode", 0);
    let x = if mode == 2 {
        // anything at all that is text
        let b = bytes(n, "text");
        assume(std::str::from_utf8(&b).is_ok());
        b
    } else {
        let b = bytes(n, "text");
        let mut ok = true;
        for c in &b {
            ok &= *c < 128;
        }
        assume(ok);
        b
    };
    let x = if choice(2, "in front") == 1 { [&x[..], pad(long).as_bytes()].concat() } else { padded(long, &x) };
    let mut m = prepare(b"abc", b"ab");
    {
        let mut p = open();
        let mut ok = p.unlock(secret(PRIMARY)).is_ok();
        // once with a known value, for what is written around it
        ok &= p.set_stored("example.com", "me", "", secret("a,b")).is_ok();
        ok &= p.set_notes("example.com", "me", "", secret("c,d")).is_ok();
        check(ok, "known values are set");
    }
    let args: &[&str] = [&["show", "example.com", "me"][..], &["list", "-s", "example.com", "me"], &["notes", "example.com", "me"], &["list", "-v", "example.com", "me"]][what as usize];
    let a = pfp(args, b"secret1\n");
    check(a.code == 0, "exit status 0");
    let known: &[u8] = if what < 2 { b"a,b\n" } else { b"c,d\n" };
    let at = (0..a.out.len() - 3).find(|i| &a.out[*i..*i + 4] == known);
    let at = match at {
        Some(i) => i,
        None => return check(false, "the value is shown"),
    };
    {
        let mut p = open();
        let mut ok = p.unlock(secret(PRIMARY)).is_ok();
        ok &= p.set_stored("example.com", "me", "", if what < 2 { secret_bytes(&x) } else { secret("a,b") }).is_ok();
        ok &= p.set_notes("example.com", "me", "", if what < 2 { secret("c,d") } else { secret_bytes(&x) }).is_ok();
        check(ok, "values are set");
    }
    m.set(b"example.com", b"me", b"", Kind::Stored(if what < 2 { x.clone() } else { b"a,b".to_vec() }));
    m.set_notes(b"example.com", b"me", b"", if what < 2 { b"c,d" } else { &x });
    let before = file();
    let r = pfp(args, b"secret1\n");
    check(r.code == 0, "exit status 0");
    if what >= 2 && x.is_empty() {
        check(!has(&r.out, b"c,d"), "no notes");
        return;
    }
    let want = [&a.out[..at], &x[..], &a.out[at + 3..]].concat();
    check(r.out.len() == want.len() && same(&r.out, &want), "exactly what is stored is shown");
    check(same_file(&before), "nothing changes");
    reach("shown");
}
/// Any number of wrong primary passwords before the right one.
pub fn h_attempts() {
    let mut m = prepare(b"abc", b"");
    let k = param("attempts", 6);
    let in_shell = param("shell", 0) == 1;
    let mut input: Vec<&[u8]> = vec![];
    if in_shell {
        input.push(b"add example.net you");
    }
    let mixed = param("mixed", 1) == 1;
    let mut kind = 0;
    for i in 0..k {
        if mixed || i == 0 {
            kind = choice(3, "attempt");
        }
        input.push([&b"wrong one"[..], b"short", b""][kind as usize]);
    }
    input.push(PRIMARY.as_bytes());
    let r = if in_shell { shell(&input) } else { pfp(&["add", "example.net", "you"], &lines(&input)) };
    check(r.code == 0, "done with the right password in the end");
    m.set(b"example.net", b"you", b"", Kind::Generated(16, 15));
    holds(&m, PRIMARY.as_bytes());
    reach("done");
}
/// Sites and names that resemble one another: `list` shows each one once, where it belongs.
pub fn h_listed() {
    let groups: [[&str; 3]; 6] = [
        ["example.com", "Example.com", "EXAMPLE.COM"],
        ["a.example", "a.example.", "a.example2"],
        ["b", "ab", "aab"],
        ["x y.example", "x.example", "x y"],
        ["\u{e4}.example", "\u{c4}.example", "a\u{308}.example"],
        ["example.com:8080", "example.com", "example.com/"],
    ];
    let sites = groups[param("group", 0) as usize];
    let names: [(&str, &str); 9] = [("me 2", "3"), ("me", "2 3"), ("me", ""), ("Me", ""), ("me", "2"), ("me", "10"), ("me 2", ""), ("me2", "x y"), ("\u{e9}", "")];
    let mut m = prepare(b"abc", b"");
    let mut p = Passwords::new(FileIO::new(Path::new(FILE)));
    let mut ok = p.reset(secret(PRIMARY)).is_ok();
    m = { drop(m); Ref::default() };
    // 0 nothing, 1 one entry, 2 several, 3 and 4 an alias, 5 no entries any more
    let mut kinds = vec![];
    for i in 0..3 {
        kinds.push(choice(6, "kind"));
        let (s, k) = (sites[i], kinds[i]);
        if k == 1 || k == 5 {
            ok &= p.set_stored(s, "me", "", secret(&format!("pw{}", i))).is_ok();
            m.set(s.as_bytes(), b"me", b"", Kind::Stored(format!("pw{}", i).into_bytes()));
        }
        if k == 5 {
            ok &= p.remove(s, "me", "").is_ok();
            m.remove(s.as_bytes(), b"me", b"");
        }
        if k == 2 {
            for (j, (n, r)) in names.iter().enumerate() {
                let v = format!("pw{}{}", i, j);
                ok &= p.set_stored(s, n, r, secret(&v)).is_ok();
                m.set(s.as_bytes(), n.as_bytes(), r.as_bytes(), Kind::Stored(v.into_bytes()));
            }
        }
    }
    for i in 0..3 {
        if kinds[i] == 3 || kinds[i] == 4 {
            let t = sites[(i + kinds[i] as usize - 2) % 3];
            let r = p.set_alias(sites[i], t);
            let w = m.set_alias(sites[i].as_bytes(), t.as_bytes());
            ok &= r.is_ok() == (w == End::Fine);
        }
    }
    check(ok, "the storage is prepared");
    drop(p);
    let before = file();
    let pattern = if param("pattern", 0) == 1 { sites[choice(3, "pattern") as usize] } else { "*" };
    let r = pfp(&["list", "-s", pattern], b"secret1\n");
    check(r.code == 0, "exit status 0");
    let prompt: &[u8] = b"Your primary password: ";
    check(r.out.starts_with(prompt), "the password is asked for");
    let out: Vec<&[u8]> = r.out[prompt.len()..].split(|c| *c == b'\n').collect();
    // what should be there: for each site its head and entries
    let mut blocks: Vec<(Vec<u8>, Vec<Vec<u8>>)> = vec![];
    for (s, _) in m.sites.clone() {
        if m.alias(&s).is_some() {
            continue;
        }
        let found = pattern == "*" || s == pattern.as_bytes() || m.sites.iter().any(|x| x.0 == pattern.as_bytes() && x.1.as_deref() == Some(&s[..]));
        let e: Vec<Vec<u8>> = m.entries.iter().filter(|e| found && e.site == s).map(|e| {
            let mut v = b"    ".to_vec();
            v.extend_from_slice(&e.name);
            v.extend_from_slice(b" (stored");
            if !e.rev.is_empty() {
                v.extend_from_slice(b", revision: ");
                v.extend_from_slice(&e.rev);
            }
            v.extend_from_slice(b")\n        ");
            if let Kind::Stored(pw) = &e.kind {
                v.extend_from_slice(pw);
            }
            v
        }).collect();
        if !e.is_empty() {
            blocks.push(([b"Passwords for ", &s[..], b":"].concat(), e));
        }
    }
    // what is there
    let mut got: Vec<(Vec<u8>, Vec<Vec<u8>>)> = vec![];
    let mut i = 0;
    while i < out.len() {
        let x = out[i];
        if x.starts_with(b"    ") && i + 1 < out.len() {
            match got.last_mut() {
                Some(b) => b.1.push([x, out[i + 1]].join(&b'\n')),
                None => check(false, "every entry is shown with its site"),
            }
            i += 1;
        } else if x.starts_with(b"Passwords for ") {
            got.push((x.to_vec(), vec![]));
        }
        i += 1;
    }
    for b in got.iter_mut().chain(blocks.iter_mut()) {
        b.1.sort();
    }
    got.sort();
    blocks.sort();
    check(got == blocks, "every site and entry is shown once, and nothing else");
    check(!got.is_empty() || has(&r.out, b"No matching passwords found."), "the user is told that there is nothing");
    // sites without passwords are forgotten when they turn up
    let gone: Vec<Vec<u8>> = m.sites.iter().filter(|x| x.1.is_none() && !m.entries.iter().any(|e| e.site == x.0) && (pattern == "*" || x.0 == pattern.as_bytes())).map(|x| x.0.clone()).collect();
    for s in &gone {
        m.remove_site(s);
    }
    if gone.is_empty() {
        check(same_file(&before), "nothing changes");
    } else {
        reach("cleaned");
    }
    let mut p = open();
    check(p.unlock(secret(PRIMARY)).is_ok(), "the primary password unlocks the storage");
    let sv: Vec<Vec<u8>> = sites.iter().map(|s| s.as_bytes().to_vec()).collect();
    let nv: Vec<Vec<u8>> = vec![b"me".to_vec(), b"me 2".to_vec()];
    model::compare(&p, &m, &sv, &nv, &["", "2", "x y"]);
    reach("listed");
}
fn b64(x: &[u8]) -> String {
    const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in x.chunks(3) {
        let v = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let n = (v[0] as usize) << 16 | (v[1] as usize) << 8 | v[2] as usize;
        for i in 0..4 {
            s.push(if i <= c.len() { B64[n >> (18 - 6 * i) & 63] as char } else { '=' });
        }
    }
    s
}
/// A storage file as any program knowing the format would write it.
struct Foreign {
    data: Vec<(String, String)>,
    key: Vec<u8>,
    secret: Vec<u8>,
    n: u64,
}
impl Foreign {
    fn new(size: usize) -> Foreign {
        use psym::model::stream;
        let mut salt = vec![0u8; size];
        stream(0xf0, 1, &mut salt);
        let (mut key, mut sec) = (vec![0u8; 32], vec![0u8; 32]);
        stream(0xf0, 2, &mut key);
        stream(0xf0, 3, &mut sec);
        let s: String = salt.iter().map(|b| *b as char).collect();
        psym::model::get().scrypt.push(psym::model::ScryptCall { password: PRIMARY.as_bytes().to_vec(), salt: s.into_bytes(), log_n: 15, r: 8, p: 1, len: 32, out: key.clone() });
        let mut f = Foreign { data: vec![], key, secret: sec, n: 10 };
        f.data.push(("salt".to_string(), b64(&salt)));
        let v = format!("\"{}\"", b64(&f.secret));
        let v = f.encrypt(v.as_bytes());
        f.data.push(("hmac-secret".to_string(), v));
        f
    }
    fn encrypt(&mut self, pt: &[u8]) -> String {
        use psym::model::stream;
        let (mut nonce, mut ct) = (vec![0u8; 12], vec![0u8; pt.len() + 16]);
        self.n += 1;
        stream(0xf1, self.n, &mut nonce);
        stream(0xf2, self.n, &mut ct);
        let v = format!("{}_{}", b64(&nonce), b64(&ct));
        psym::model::get().aead.push(psym::model::AeadCall { key: self.key.clone(), nonce, aad: vec![], pt: pt.to_vec(), ct });
        v
    }
    fn digest(&mut self, data: &str) -> String {
        let m = psym::model::get();
        for h in m.hmac.iter() {
            if h.key == self.secret && h.data == data.as_bytes() {
                return b64(&h.out);
            }
        }
        let mut out = vec![0u8; 32];
        self.n += 1;
        psym::model::stream(0xf3, self.n, &mut out);
        m.hmac.push(psym::model::HmacCall { key: self.secret.clone(), data: data.as_bytes().to_vec(), out: out.clone() });
        b64(&out)
    }
    /// The key of a site, or of an entry.
    fn key(&mut self, site: &str, entry: Option<(&str, &str)>) -> String {
        let k = "site:".to_string() + &self.digest(site);
        match entry {
            Some((n, r)) => k + ":" + &self.digest(&format!("{}\0{}\0{}", site, n, r)),
            None => k,
        }
    }
    fn put(&mut self, site: &str, entry: Option<(&str, &str)>, value: String) {
        let k = self.key(site, entry);
        self.data.push((k, value));
    }
    fn write(&self) {
        let d: Vec<String> = self.data.iter().map(|(k, v)| format!("\"{}\":\"{}\"", k, v)).collect();
        psym::fs::write(FILE, format!("{{\"application\":\"pfp\",\"format\":3,\"data\":{{{}}}}}", d.join(",")).as_bytes());
    }
}
/// Whatever the storage holds, commands end with their result or an error.
pub fn h_damaged() {
    let kind = param("kind", 0);
    let n = param("n", 2) as usize;
    let mut f = Foreign::new(if kind == 0 { choice(41, "size of the salt") as usize } else { 16 });
    let v = f.encrypt(br#"{"site":"example.com"}"#);
    f.put("example.com", None, v);
    let v = f.encrypt(br#"{"type":"stored","site":"example.com","name":"me","revision":"","password":"abc","notes":"nn"}"#);
    f.put("example.com", Some(("me", "")), v);
    let site: &[u8] = br#"{"site":"bad.example"}"#;
    let entry: &[u8] = br#"{"type":"stored","site":"bad.example","name":"me","revision":"","password":"def","notes":"mm"}"#;
    let generated: &[u8] = br#"{"type":"generated2","site":"bad.example","name":"you","revision":"","length":8,"lower":true,"upper":true,"number":true,"symbol":true}"#;
    let (mut s, mut e, mut g) = (f.encrypt(site), f.encrypt(entry), f.encrypt(generated));
    let which = if kind == 0 { 0 } else if param("which", 3) < 3 { param("which", 0) as u32 } else { choice(3, "damaged") };
    let step = param("step", 9) as u32;
    let offset = param("offset", 0) as usize;
    let damage = |f: &mut Foreign, v: &mut String, plain: &[u8]| match kind {
        // no ciphertext
        1 => {
            let b = bytes(n, "value");
            let mut ok = true;
            for c in &b {
                ok &= (*c < 127) & (*c >= b' ') & (*c != b'"') & (*c != b'\\');
            }
            assume(ok);
            *v = text(&b);
        }
        // cut
        2 => v.truncate(choice(v.len() as u32 / step, "cut") as usize * step as usize + offset),
        // encrypted, but not what it should be
        3 => {
            let b = bytes(n, "plaintext");
            *v = f.encrypt(&b);
        }
        // a part of what it should be
        4 => {
            let k = choice(plain.len() as u32 / step, "cut") as usize * step as usize + offset;
            *v = f.encrypt(&plain[..k]);
        }
        // another record in its place
        5 => {
            let other: [&[u8]; 8] = [
                br#"{"site":"bad.example","alias":"bad.example"}"#,
                br#"{"site":"bad.example","alias":"nowhere.example"}"#,
                br#"{"site":"example.com"}"#,
                br#"{"type":"generated2","site":"bad.example","name":"me","revision":"","length":0,"lower":true,"upper":true,"number":true,"symbol":true}"#,
                br#"{"type":"generated2","site":"bad.example","name":"me","revision":"","length":8,"lower":false,"upper":false,"number":false,"symbol":false}"#,
                br#"{"type":"generated2","site":"bad.example","name":"me","revision":"","length":18446744073709551615,"lower":true,"upper":true,"number":true,"symbol":true}"#,
                br#"{"type":"stored","site":"bad.example","name":"me","revision":"2","password":"def"}"#,
                br#"{"type":"stored","site":"nowhere.example","name":"x","revision":"","password":"def"}"#,
            ];
            *v = f.encrypt(other[choice(8, "other") as usize]);
        }
        _ => {}
    };
    match which {
        0 => damage(&mut f, &mut s, site),
        1 => damage(&mut f, &mut e, entry),
        _ => damage(&mut f, &mut g, generated),
    }
    f.put("bad.example", None, s);
    f.put("bad.example", Some(("me", "")), e);
    f.put("bad.example", Some(("you", "")), g);
    let c = choice(14, "command");
    if c != 9 {
        let v = f.encrypt(br#"{"site":"alias.example","alias":"bad.example"}"#);
        f.put("alias.example", None, v);
    }
    f.write();
    let before = file();
    let cmds: [(&[&str], &[&[u8]]); 14] = [
        (&["list", "-s", "-v"], &[]),
        (&["list", "-r"], &[]),
        (&["list", "-r", "-s", "-v", "example.com"], &[]),
        (&["show", "bad.example", "me"], &[]),
        (&["show", "alias.example", "you"], &[]),
        (&["show", "-q", "bad.example", "you"], &[]),
        (&["notes", "bad.example", "me"], &[]),
        (&["alias", "bad.example"], &[]),
        (&["notes", "-s", "bad.example", "me"], &[b"a note"]),
        (&["add", "-y", "bad.example", "me"], &[]),
        (&["add-stored", "-y", "alias.example", "you"], &[b"pw"]),
        (&["remove", "bad.example", "me"], &[]),
        (&["alias", "bad.example", "example.com"], &[]),
        (&["alias", "-r", "bad.example"], &[]),
    ];
    let (args, more) = cmds[c as usize];
    let mut input: Vec<&[u8]> = vec![PRIMARY.as_bytes()];
    input.extend_from_slice(more);
    let r = pfp(args, &lines(&input));
    check(r.code == 0 || r.code == 1, "exit status 0 or 1");
    if r.code != 0 {
        check(!r.err.is_empty(), "the user is told why not");
        check(same_file(&before), "nothing changes");
        reach("refused");
        // opening the storage isn't prevented by damage to an entry
        check(kind == 0 || !has(&r.err, b"decrypt your passwords"), "the primary password is accepted");
    } else {
        reach("done");
    }
    if c < 8 {
        if c > 1 || kind == 0 {
            check(same_file(&before), "nothing changes");
        }
        if c == 2 && kind > 0 {
            check(r.code == 0 && has(&r.out, b"abc\n") && has(&r.out, b"nn\n"), "what isn't damaged is listed");
        }
        if c == 0 && kind > 0 && r.code == 0 {
            check(has(&r.out, b"abc\n") && has(&r.out, b"nn\n"), "what isn't damaged is listed");
        }
    }
    if (c == 9 || c == 10) && r.code == 0 {
        let l = pfp(&["list", "bad.example"], b"secret1\n");
        check(l.code == 0, "listing works");
        if kind != 5 {
            check(has(&l.out, b"Passwords for bad.example:\n") && has(&l.out, if c == 9 { b"\n    me (generated" } else { b"\n    you (stored" }), "what was added is listed");
        }
        let s = if c == 9 { pfp(&["show", "bad.example", "me"], b"secret1\n") } else { pfp(&["show", "alias.example", "you"], b"secret1\n") };
        check(s.code == 0 && (c == 9 || kind == 5 || ends(&s.out, b"\npw\n")), "what was added is shown");
    }
    let r = pfp(&["show", "example.com", "me"], b"secret1\n");
    check(r.code == 0 && ends(&r.out, b"\nabc\n"), "what isn't damaged is there afterwards");
}
/// The storage that is named (or the user's own one) is the only file commands have to do with.
pub fn h_files() {
    let typed = plain(param("n", 2) as usize, "typed");
    // how the file is named, and what it is
    let own = "/home/u/.config/PfP/storage.json";
    let places: [(&[&str], &str); 11] = [
        (&["-c", "/scratch/s.json"], "/scratch/s.json"),
        (&["-c", "s.json"], "/scratch/s.json"),
        (&["--storage=./s.json"], "/scratch/s.json"),
        (&["-cnew/dir/my store"], "/scratch/new/dir/my store"),
        (&["--storage", "//scratch/new.d//.hidden"], "/scratch/new.d/.hidden"),
        (&["-c", "/scratch/\u{e9}.json.json"], "/scratch/\u{e9}.json.json"),
        (&["-c", "/home/u/.config/PfP/history.txt.json"], "/home/u/.config/PfP/history.txt.json"),
        (&["-c~/s.json"], "/scratch/~/s.json"),
        (&["-c", "$HOME"], "/scratch/$HOME"),
        (&[], own),
        // nothing in the user's folder yet
        (&[], own),
    ];
    let place = choice(11, "place") as usize;
    let (opt, path) = places[place];
    let fresh = place == 10 || path.contains("/new") || path.contains("/~");
    // other files, the names of some much like it
    let mut others: Vec<(String, Vec<u8>)> = vec![];
    for (i, o) in ["/scratch/s.json", "/scratch/s", "/scratch/s.json.bak", "/scratch/storage.json", "/scratch/.json", "/scratch/data", "/scratch/history.txt", "/home/u/storage.json", own].iter().enumerate() {
        if *o != path {
            others.push((o.to_string(), format!("others' data {}", i).into_bytes()));
        }
    }
    for s in ["~", ".bak", ".old", ".new", ".tmp", ".lock", "2"] {
        if !fresh && !others.iter().any(|o| o.0 == format!("{}{}", path, s)) {
            others.push((format!("{}{}", path, s), b"others' data".to_vec()));
        }
    }
    let parent = path.rfind('/').map(|i| &path[..i]).unwrap();
    for s in [".pfp-0.tmp", ".pfp.tmp", ".tmp", "tmp", "backup.json"] {
        if !fresh {
            others.push((format!("{}/{}", parent, s), b"others' data".to_vec()));
        }
    }
    if place != 10 {
        for d in ["/home/u/.config", "/home/u/.config/PfP"] {
            psym::fs::mkdir(d);
        }
    }
    for (o, d) in &others {
        psym::fs::write(o, d);
    }
    let run = |args: &[&str], input: &[u8]| {
        let mut a = vec!["pfp-cli", "--stdin-passwords"];
        a.extend_from_slice(opt);
        a.extend_from_slice(args);
        pfp_args(&a, input)
    };
    let there = psym::fs::list();
    let only = |more: &[&str]| {
        let mut want = there.clone();
        for f in more {
            want.push(f.to_string());
            want.extend(f.match_indices('/').filter(|x| x.0 > 0).map(|(i, _)| f[..i + 1].to_string()));
        }
        want.sort();
        want.dedup();
        let mut there = psym::fs::list();
        there.sort();
        there.dedup();
        check(there == want, "no other files or folders come or go");
        for (o, d) in &others {
            let f = psym::fs::read(o).unwrap_or_default();
            check(f == *d, "other files stay as they are");
        }
    };
    let r = run(&["show", "example.com", "me"], b"secret1\n");
    check(r.code == 1, "there is no storage yet");
    only(&[]);
    let r = run(&["set-primary"], b"secret1\nsecret2\n");
    check(r.code == 1, "nothing is set");
    only(&[]);
    let r = run(&["set-primary"], b"secret1\nsecret1\n");
    check(r.code == 0, "the primary password is set");
    only(&[path]);
    let mut m = Ref::default();
    let r = run(&["add-stored", "example.com", "me"], &lines(&[b"secret1", &typed]));
    m.set(b"example.com", b"me", b"", Kind::Stored(typed.clone()));
    check(r.code == 0, "the password is added");
    only(&[path]);
    let commands: [(&[&str], &[&[u8]]); 10] = [
        (&["add", "example.com", "you"], &[b"secret1"]),
        (&["remove", "example.com", "me"], &[b"secret1"]),
        (&["show", "example.com", "me"], &[b"secret1"]),
        (&["notes", "-s", "example.com", "me"], &[b"secret1", b"a note"]),
        (&["alias", "example.org", "example.com"], &[b"secret1"]),
        (&["list"], &[b"secret1"]),
        (&["set-primary", "-y"], &[b"secret1", b"secret1"]),
        (&["set-primary"], &[b"n", b"secret1", b"secret1"]),
        (&["shell"], &[b"add example.com you", b"secret1", b"exit"]),
        (&["shell", "-s", "a history"], &[b"remove example.com me", b"secret1"]),
    ];
    let c = choice(10, "command");
    let (args, input) = commands[c as usize];
    let r = run(args, &lines(input));
    check(r.code == 0, "the command succeeds");
    match c {
        0 | 8 => {
            m.set(b"example.com", b"you", b"", Kind::Generated(16, 15));
        }
        1 | 9 => {
            m.remove(b"example.com", b"me", b"");
        }
        3 => {
            m.set_notes(b"example.com", b"me", b"", b"a note");
        }
        4 => {
            m.set_alias(b"example.org", b"example.com");
        }
        6 => m = Ref::default(),
        _ => {}
    }
    match c {
        8 => only(&[path, "/home/u/.config/PfP/history.txt"]),
        9 => only(&[path, "/scratch/a history"]),
        _ => only(&[path]),
    }
    let data = psym::fs::read(path).unwrap_or_default();
    psym::fs::write(FILE, &data);
    holds(&m, PRIMARY.as_bytes());
    reach("done");
}
/// Commands that can't save, or not even read, the storage: none of them says it is done.
pub fn h_unsaved() {
    let typed = plain(param("n", 2) as usize, "typed");
    let mut m = prepare(b"abc", b"nn");
    let before = file();
    let commands: [(&[&str], &[&[u8]]); 11] = [
        (&["add", "example.com", "new"], &[]),
        (&["add", "-y", "example.com", "me"], &[]),
        (&["add-stored", "example.net", "you"], &[&typed]),
        (&["remove", "example.org", "me"], &[]),
        (&["notes", "-s", "example.com", "you"], &[&typed]),
        (&["notes", "-s", "example.com", "you"], &[b""]),
        (&["alias", "example.edu", "example.com"], &[]),
        (&["alias", "-r", "example.org"], &[]),
        (&["list"], &[]),
        (&["set-primary", "-y"], &[b"secret1"]),
        (&["shell", "-s", "/scratch/h"], &[b"secret1", b"remove example.net me", b"show example.com me", b"exit"]),
    ];
    let c = choice(11, "command");
    let (args, more) = commands[c as usize];
    let mut input: Vec<&[u8]> = vec![if c == 10 { b"alias -r example.org" } else { b"secret1" }];
    input.extend_from_slice(more);
    psym::faults(param("faults", 1) as u32, 3);
    let r = pfp(args, &lines(&input));
    psym::faults(0, 0);
    match c {
        0 => {
            m.set(b"example.com", b"new", b"", Kind::Generated(16, 15));
        }
        1 => {
            m.set(b"example.com", b"me", b"", Kind::Generated(16, 15));
        }
        2 => {
            m.set(b"example.net", b"you", b"", Kind::Stored(typed.clone()));
        }
        3 => {
            m.remove(b"example.com", b"me", b"");
        }
        4 => {
            m.set_notes(b"example.com", b"you", b"", &typed);
        }
        5 => {
            m.set_notes(b"example.com", b"you", b"", b"");
        }
        6 => {
            m.set_alias(b"example.edu", b"example.com");
        }
        7 | 10 => {
            m.remove_alias(b"example.org");
        }
        8 => {
            m.remove_site(b"empty.example");
        }
        _ => m = Ref::default(),
    }
    if c == 10 {
        // what a command couldn't save is saved with the next one
        if same_file(&before) {
            check(!r.err.is_empty(), "the user is told");
            reach("failed");
        } else {
            let mut p = Passwords::new(FileIO::load(Path::new(FILE)).ok().unwrap());
            check(p.unlock(secret(PRIMARY)).is_ok(), "the primary password unlocks the file");
            if p.has("example.net", "me", "").unwrap_or(true) {
                check(!r.err.is_empty(), "the user is told");
                reach("failed");
            } else {
                m.remove(b"example.net", b"me", b"");
                reach("done");
            }
            drop(p);
            holds(&m, PRIMARY.as_bytes());
        }
    } else if r.code == 0 {
        holds(&m, PRIMARY.as_bytes());
        reach("done");
    } else {
        check(r.code == 1 && !r.err.is_empty(), "the user is told");
        if !same_file(&before) {
            holds(&m, PRIMARY.as_bytes());
        }
        reach("failed");
    }
}
/// Places where no storage can be.
pub fn h_places() {
    psym::fs::mkdir("/scratch/dir");
    psym::fs::write("/scratch/file", b"data");
    let path = ["/scratch/dir", "dir", "/scratch/file/s.json", "", "/"][choice(5, "place") as usize];
    let set = choice(2, "command") == 1;
    let args: &[&str] = if set { &["set-primary", "-y"] } else { &["list"] };
    let mut a = vec!["pfp-cli", "--stdin-passwords", "-c", path];
    a.extend_from_slice(args);
    let before = psym::fs::list();
    let r = pfp_args(&a, b"secret1\nsecret1\n");
    check(r.code != 0 && !r.err.is_empty(), "an error is reported");
    check(psym::fs::list() == before, "no files or folders come or go");
    check(psym::fs::read("/scratch/file").unwrap_or_default() == b"data", "other files stay as they are");
    reach("refused");
}
pub fn h_try() {
    let r = pfp(&["set-primary"], b"secret1\nsecret1\n");
    check(r.code == 0, "set-primary");
    psym::trace(&r.out);
    let r = pfp(&["add", "example.com", "me"], b"secret1\n");
    check(r.code == 0, "add");
    psym::trace(&r.out);
    let r = pfp(&["show", "example.com", "me"], b"secret1\n");
    check(r.code == 0, "show");
    psym::trace(&r.out);
    let r = pfp(&["list"], b"secret1\n");
    check(r.code == 0, "list");
    psym::trace(&r.out);
    reach("done");
}

macro_rules! entries {
    ($($f:ident),* $(,)?) => {
        mod entry {
            $(#[no_mangle]
            #[inline(never)]
            pub extern "C" fn $f() { super::$f() })*
        }
        fn table() -> Vec<(&'static str, extern "C" fn())> {
            vec![$((stringify!($f), entry::$f as extern "C" fn())),*]
        }
    };
}
entries! {
    h_files, h_places, h_unsaved, h_damaged, h_listed, h_shown, h_attempts, h_qr, h_ends, h_residue, h_try, h_confirm, h_unasked, h_primary, h_overwrite, h_options, h_command, h_again, h_nothing, h_list_cmd, h_code, h_shell, h_shell_words, h_shell_line,
}
pub fn run() {
    let want = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in table() {
        if n == want {
            f();
            psym::done();
            return;
        }
    }
    std::process::exit(97);
}
