//! What the storage is supposed to do: a map from (site, name, revision) to entries, and
//! sites some of which are aliases of others.
use crate::util::*;
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_io::StorageIO;
use pfp::storage_types::Password;
use psym::check;
use secrecy::ExposeSecret;

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Generated(usize, u32),
    Stored(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Entry {
    pub site: Vec<u8>,
    pub name: Vec<u8>,
    pub rev: Vec<u8>,
    pub kind: Kind,
    pub notes: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct Ref {
    pub entries: Vec<Entry>,
    pub sites: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}

/// How an operation ended.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Fine,
    Missing,
    NoAlias,
    HasPasswords,
    ToSelf,
    /// either of the two above
    Refused,
    Locked,
    Other,
}
pub fn end<T>(r: &Result<T, Error>) -> End {
    match r {
        Ok(_) => End::Fine,
        Err(Error::KeyMissing) => End::Missing,
        Err(Error::NoSuchAlias) => End::NoAlias,
        Err(Error::SiteHasPasswords) => End::HasPasswords,
        Err(Error::AliasToSelf) => End::ToSelf,
        Err(Error::PasswordsLocked) => End::Locked,
        Err(_) => End::Other,
    }
}
pub fn ended(got: End, want: End) -> bool {
    got == want || want == End::Refused && (got == End::HasPasswords || got == End::ToSelf)
}

pub fn norm(site: &[u8]) -> Vec<u8> {
    if site.len() >= 4 && eq(&site[..4], b"www.") {
        site[4..].to_vec()
    } else {
        site.to_vec()
    }
}
fn norm_rev(rev: &[u8]) -> Vec<u8> {
    if eq(rev, b"1") {
        vec![]
    } else {
        rev.to_vec()
    }
}

impl Ref {
    pub fn site(&self, name: &[u8]) -> Option<usize> {
        self.sites.iter().position(|s| eq(&s.0, name))
    }
    pub fn alias(&self, site: &[u8]) -> Option<Vec<u8>> {
        self.site(&norm(site)).and_then(|i| self.sites[i].1.clone())
    }
    pub fn resolve(&self, site: &[u8]) -> Vec<u8> {
        self.alias(site).unwrap_or_else(|| norm(site))
    }
    pub fn find(&self, site: &[u8], name: &[u8], rev: &[u8]) -> Option<usize> {
        let s = self.resolve(site);
        let r = norm_rev(rev);
        self.entries.iter().position(|e| eq(&e.rev, &r) && eq(&e.name, name) && eq(&e.site, &s))
    }
    pub fn has_passwords(&self, site: &[u8]) -> bool {
        self.entries.iter().any(|e| eq(&e.site, site))
    }
    pub fn set(&mut self, site: &[u8], name: &[u8], rev: &[u8], kind: Kind) -> End {
        let s = self.resolve(site);
        if self.site(&s).is_none() {
            self.sites.push((s.clone(), None));
        }
        let e = Entry {
            site: s,
            name: name.to_vec(),
            rev: norm_rev(rev),
            kind,
            notes: vec![],
        };
        match self.find(site, name, rev) {
            Some(i) => self.entries[i] = e,
            None => self.entries.push(e),
        }
        End::Fine
    }
    pub fn remove(&mut self, site: &[u8], name: &[u8], rev: &[u8]) -> End {
        match self.find(site, name, rev) {
            Some(i) => {
                self.entries.remove(i);
                End::Fine
            }
            None => End::Missing,
        }
    }
    pub fn set_notes(&mut self, site: &[u8], name: &[u8], rev: &[u8], notes: &[u8]) -> End {
        match self.find(site, name, rev) {
            Some(i) => {
                self.entries[i].notes = notes.to_vec();
                End::Fine
            }
            None => End::Missing,
        }
    }
    pub fn set_alias(&mut self, site: &[u8], alias: &[u8]) -> End {
        let s = norm(site);
        let a = self.resolve(alias);
        match (self.has_passwords(&s), eq(&s, &a)) {
            (true, true) => return End::Refused,
            (true, false) => return End::HasPasswords,
            (false, true) => return End::ToSelf,
            _ => {}
        }
        // whatever is an alias of this site is one of the new target from now on
        for x in self.sites.iter_mut() {
            if x.1.is_some() && eq(x.1.as_ref().unwrap(), &s) {
                x.1 = Some(a.clone());
            }
        }
        match self.site(&s) {
            Some(i) => self.sites[i].1 = Some(a),
            None => self.sites.push((s, Some(a))),
        }
        End::Fine
    }
    pub fn remove_alias(&mut self, site: &[u8]) -> End {
        match self.site(&norm(site)) {
            Some(i) if self.sites[i].1.is_some() => {
                self.sites.remove(i);
                End::Fine
            }
            _ => End::NoAlias,
        }
    }
    pub fn remove_site(&mut self, site: &[u8]) -> End {
        match self.site(site) {
            Some(i) => {
                self.sites.remove(i);
                End::Fine
            }
            None => End::Missing,
        }
    }
}

/// Equality, decided on the spot.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && psym::fork(same(a, b))
}

pub fn same_entry(p: &Password, e: &Entry) -> bool {
    let id = p.id();
    if id.revision().len() != e.rev.len() || id.name().len() != e.name.len() || id.site().len() != e.site.len() {
        return false;
    }
    let mut ok = same(id.site().as_bytes(), &e.site)
        & same(id.name().as_bytes(), &e.name)
        & same(id.revision().as_bytes(), &e.rev)
        & same(p.notes().expose_secret().as_bytes(), &e.notes);
    match (p, &e.kind) {
        (Password::Generated(g), Kind::Generated(n, cs)) => {
            ok &= g.length() == *n && g.charset() == charset(*cs);
        }
        (Password::Stored(s), Kind::Stored(pw)) => {
            ok &= same(s.password().expose_secret().as_bytes(), pw);
        }
        _ => ok = false,
    }
    ok
}

/// True if the two lists have the same members.
pub fn match_all<A, B>(a: &[A], b: &[B], same: impl Fn(&A, &B) -> bool) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    for x in a {
        let mut hit = false;
        for (j, y) in b.iter().enumerate() {
            if !used[j] && psym::fork(same(x, y)) {
                used[j] = true;
                hit = true;
                break;
            }
        }
        if !hit {
            return false;
        }
    }
    true
}

/// Everything the public interface shows agrees with the model.
pub fn compare<IO: StorageIO>(p: &Passwords<IO>, m: &Ref, sites: &[Vec<u8>], names: &[Vec<u8>], revs: &[&str]) {
    let s = |b: &[u8]| text(b);
    for site in sites {
        let site_s = s(site);
        match (p.get_alias(&site_s), m.alias(site)) {
            (Ok(a), Some(b)) => check(same(a.as_bytes(), &b), "the alias is the one that was set"),
            (Err(Error::NoSuchAlias), None) => {}
            (Ok(_), None) => check(false, "no alias that wasn't set"),
            (Err(_), None) => check(false, "a missing alias is reported as such"),
            (Err(_), Some(_)) => check(false, "an alias that was set is found"),
        }
        let r = m.resolve(site);
        let want: Vec<&Entry> = m.entries.iter().filter(|e| eq(&e.site, &r)).collect();
        let got: Vec<Password> = p.list(&site_s, "*").collect();
        check(match_all(&got, &want, |a, b| same_entry(a, b)), "list() shows exactly the site's entries");
        for name in names {
            for rev in revs {
                let name_s = s(name);
                let i = m.find(site, name, rev.as_bytes());
                match p.has(&site_s, &name_s, rev) {
                    Ok(h) => check(h == i.is_some(), "has() tells whether there is an entry"),
                    Err(_) => check(false, "has() works"),
                }
                match (p.get_notes(&site_s, &name_s, rev), i) {
                    (Ok(n), Some(i)) => {
                        check(same(n.expose_secret().as_bytes(), &m.entries[i].notes), "notes are the ones last set");
                    }
                    (Err(Error::KeyMissing), None) => {}
                    (Ok(_), None) => check(false, "no notes without an entry"),
                    (Err(_), _) => check(false, "notes can be read"),
                }
                match (p.get(&site_s, &name_s, rev), i) {
                    (Ok(g), Some(i)) => {
                        if let Kind::Stored(pw) = &m.entries[i].kind {
                            check(same(g.expose_secret().as_bytes(), pw), "the stored password is the one last set");
                        }
                    }
                    (Err(Error::KeyMissing), None) => {}
                    (Ok(_), None) => check(false, "no password without an entry"),
                    (Err(_), _) => check(false, "a password can be read"),
                }
            }
        }
    }
    let got: Vec<(Vec<u8>, Option<Vec<u8>>)> = p
        .list_sites("*")
        .map(|x| (x.name().as_bytes().to_vec(), x.alias().map(|a| a.as_bytes().to_vec())))
        .collect();
    check(
        match_all(&got, &m.sites, |a, b| match (&a.1, &b.1) {
            (None, None) => same(&a.0, &b.0),
            (Some(x), Some(y)) => same(&a.0, &b.0) & same(x, y),
            _ => false,
        }),
        "list_sites() shows exactly the sites and aliases there are",
    );
}
