//! Listing with wildcards.
use crate::io::Shared;
use crate::store::letters;
use crate::util::*;
use pfp::passwords::Passwords;
use psym::{check, choice, fork, param, reach};

/// `*` stands for any characters, `?` for exactly one.
fn matches(pat: &[u8], s: &[u8]) -> bool {
    if pat.is_empty() {
        return s.is_empty();
    }
    match pat[0] {
        b'*' => (0..=s.len()).any(|i| matches(&pat[1..], &s[i..])),
        b'?' => !s.is_empty() && matches(&pat[1..], &s[1..]),
        c => !s.is_empty() && fork(s[0] == c) && matches(&pat[1..], &s[1..]),
    }
}
/// The same as wildmatch 2.1.0 decides it, which gives up too early on patterns for which
/// the characters after a `*` have to be tried in several places (a known finding).
fn matches_wildmatch(pat: &[u8], s: &[u8]) -> bool {
    let mut st: Vec<(u8, bool)> = vec![];
    let mut star = false;
    for &c in pat {
        if c == b'*' {
            star = true;
        } else {
            st.push((c, star));
            star = false;
        }
    }
    if st.is_empty() && pat.is_empty() {
        return s.is_empty();
    }
    st.push((0, star));
    let hit = |i: usize, c: u8| st[i].0 == b'?' || st[i].0 != 0 && fork(st[i].0 == c);
    let mut i = 0;
    for &c in s {
        if i >= st.len() {
            return false;
        }
        if hit(i, c) {
            i += 1;
        } else if st[i].1 {
            if st[i].0 == 0 {
                return true;
            }
        } else {
            loop {
                if i == 0 {
                    return false;
                }
                i -= 1;
                if st[i].1 {
                    if hit(i, c) {
                        i += 1;
                    }
                    break;
                }
            }
        }
    }
    st[i].0 == 0
}
fn verdict(got: &[Vec<u8>], want: &[Vec<u8>], known: &[Vec<u8>], msg: &str) {
    if same_sets(&mut got.to_vec(), want) {
        return;
    }
    if same_sets(&mut got.to_vec(), known) {
        check(false, "a pattern whose characters after a * fit in several places is matched");
    } else {
        check(false, msg);
    }
}
fn pattern(n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| match choice(3, "wildcard") {
            0 => b'*',
            1 => b'?',
            _ => letters(1, "letter")[0],
        })
        .collect()
}
fn same_sets(got: &mut Vec<Vec<u8>>, want: &[Vec<u8>]) -> bool {
    if got.len() != want.len() {
        return false;
    }
    for w in want {
        match got.iter().position(|g| g.len() == w.len() && fork(same(g, w))) {
            Some(i) => {
                got.remove(i);
            }
            None => return false,
        }
    }
    true
}

/// Text put around patterns and some of the names they are to match.
fn around(s: &[u8]) -> Vec<u8> {
    let (before, after) = [("", ""), ("www.", ""), (" ", " "), ("[a]", "\\"), ("\u{e9}", ".*"), ("A", "-")][param("around", 0) as usize];
    [before.as_bytes(), s, after.as_bytes()].concat()
}
/// The same for patterns; ? stands for a character of two bytes as well.
fn around_pattern(s: &[u8]) -> Vec<u8> {
    let mut v = around(s);
    if param("around", 0) == 4 && choice(2, "any character") == 1 {
        v.splice(0..2, [b'?']);
    }
    v
}
/// One byte per character.
fn latin(s: &[u8]) -> Vec<u8> {
    if param("around", 0) == 4 && s.starts_with("\u{e9}".as_bytes()) {
        [b"\xe9", &s[2..]].concat()
    } else {
        s.to_vec()
    }
}
/// list() shows the entries whose names match, each once.
pub fn h_list() {
    let long = param("long", 0);
    let pat = around_pattern(&padded(long, &pattern(param("pat", 2) as usize)));
    let n1 = padded(long, &letters(param("n1", 1) as usize, "name 1"));
    let mut n2 = padded(long, &letters(param("n2", 2) as usize, "name 2"));
    n2.push(b'2');
    let n2 = around(&n2);
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret("primary")).is_ok(), "reset");
    check(p.set_generated("a.example", &text(&n1), "1", 8, charset(15)).is_ok(), "set_generated");
    check(p.set_stored("www.a.example", &text(&n2), "1", secret("abc")).is_ok(), "set_stored");
    check(p.set_stored("a.example", &text(&n2), "2", secret("def")).is_ok(), "set_stored");
    check(p.set_stored("b.example", &text(&n1), "1", secret("abc")).is_ok(), "set_stored");
    check(p.set_alias("c.example", "a.example").is_ok(), "set_alias");
    let site = ["a.example", "www.a.example", "c.example", "b.example", "d.example"][choice(5, "site") as usize];
    let p2 = text(&pat);
    let got: Vec<Vec<u8>> = p
        .list(site, &p2)
        .map(|x| {
            let mut v = x.id().name().as_bytes().to_vec();
            v.push(0);
            v.extend_from_slice(x.id().revision().as_bytes());
            check(x.id().site() == if site == "b.example" { site } else { "a.example" }, "listed with its site");
            v
        })
        .collect();
    let (mut want, mut known): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (vec![], vec![]);
    let mut add = |n: &[u8], r: &[u8]| {
        let mut v = n.to_vec();
        v.push(0);
        v.extend_from_slice(r);
        if matches_wildmatch(&latin(&pat), &latin(n)) {
            known.push(v.clone());
        }
        if matches(&latin(&pat), &latin(n)) {
            want.push(v);
        }
    };
    match site {
        "d.example" => {}
        "b.example" => add(&n1, b""),
        _ => {
            add(&n1, b"");
            add(&n2, b"");
            add(&n2, b"2");
        }
    }
    verdict(&got, &want, &known, "list() shows exactly the matching names");
    reach(if want.is_empty() { "none" } else { "some" });
}

/// list_sites() shows the sites and aliases that match, by either of the names.
pub fn h_list_sites() {
    let long = param("long", 0);
    let pat = around_pattern(&padded(long, &pattern(param("pat", 2) as usize)));
    let s1 = padded(long, &letters(param("n1", 1) as usize, "site 1"));
    let mut s2 = padded(long, &letters(param("n2", 1) as usize, "site 2"));
    s2.push(b'2');
    let s2 = around(&s2);
    let mut s3 = padded(long, &letters(1, "site 3"));
    s3.push(b'3');
    let s3 = around(&s3);
    // one www. is left out of what is given as site
    let given = |s: &[u8]| if param("around", 0) == 1 { format!("www.{}", text(s)) } else { text(s) };
    let io = Shared::new();
    let mut p = Passwords::new(io);
    check(p.reset(secret("primary")).is_ok(), "reset");
    check(p.set_generated(&text(&s1), "me", "1", 8, charset(15)).is_ok(), "set_generated");
    check(p.set_stored(&text(&s1), "me", "2", secret("abc")).is_ok(), "set_stored");
    check(p.set_alias(&given(&s2), &given(&s3)).is_ok(), "set_alias");
    let p2 = text(&pat);
    let got: Vec<Vec<u8>> = p
        .list_sites(&p2)
        .map(|x| {
            let mut v = x.name().as_bytes().to_vec();
            v.push(0);
            v.extend_from_slice(x.alias().unwrap_or("").as_bytes());
            v
        })
        .collect();
    let mut e1 = s1.clone();
    e1.push(0);
    let mut e2 = s2.clone();
    e2.push(0);
    e2.extend_from_slice(&s3);
    let select = |f: fn(&[u8], &[u8]) -> bool| {
        let mut v = vec![];
        if f(&latin(&pat), &latin(&s1)) {
            v.push(e1.clone());
        }
        if f(&latin(&pat), &latin(&s2)) || f(&latin(&pat), &latin(&s3)) {
            v.push(e2.clone());
        }
        v
    };
    let want = select(matches);
    verdict(&got, &want, &select(matches_wildmatch), "list_sites() shows exactly the matching sites");
    reach(if want.is_empty() { "none" } else { "some" });
}
