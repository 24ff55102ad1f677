//! Random-oracle model of scrypt with the interface of scrypt 0.10.
use psym::model::{get, same, stream, ScryptCall};

pub mod errors {
    use std::fmt;
    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub struct InvalidOutputLen;
    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub struct InvalidParams;
    impl fmt::Display for InvalidOutputLen {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("invalid output buffer length")
        }
    }
    impl fmt::Display for InvalidParams {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("invalid scrypt parameters")
        }
    }
    impl std::error::Error for InvalidOutputLen {}
    impl std::error::Error for InvalidParams {}
}

#[derive(Clone, Copy, Debug)]
pub struct Params {
    log_n: u8,
    r: u32,
    p: u32,
}
impl Params {
    pub fn new(log_n: u8, r: u32, p: u32) -> Result<Params, errors::InvalidParams> {
        if r == 0 || p == 0 || log_n as usize >= 64 {
            return Err(errors::InvalidParams);
        }
        let r128 = (r as usize).checked_mul(128).ok_or(errors::InvalidParams)?;
        r128.checked_mul(1usize << log_n).ok_or(errors::InvalidParams)?;
        r128.checked_mul(p as usize).ok_or(errors::InvalidParams)?;
        if log_n as usize >= r as usize * 16 || r as usize * p as usize >= 0x4000_0000 {
            return Err(errors::InvalidParams);
        }
        Ok(Params { log_n, r, p })
    }
    pub fn recommended() -> Params {
        Params { log_n: 15, r: 8, p: 1 }
    }
    pub fn log_n(&self) -> u8 {
        self.log_n
    }
    pub fn r(&self) -> u32 {
        self.r
    }
    pub fn p(&self) -> u32 {
        self.p
    }
}
impl Default for Params {
    fn default() -> Params {
        Params::recommended()
    }
}

pub fn scrypt(
    password: &[u8],
    salt: &[u8],
    params: &Params,
    output: &mut [u8],
) -> Result<(), errors::InvalidOutputLen> {
    if output.is_empty() {
        return Err(errors::InvalidOutputLen);
    }
    let _w = psym::Pause::new();
    let m = get();
    let mut found = usize::MAX;
    for (i, c) in m.scrypt.iter().enumerate() {
        if c.log_n == params.log_n
            && c.r == params.r
            && c.p == params.p
            && c.password.len() == password.len()
            && c.salt.len() == salt.len()
        {
            if same(&c.password, password) & same(&c.salt, salt) {
                found = i;
                break;
            }
        }
    }
    if found == usize::MAX {
        found = m.scrypt.len();
        m.scrypt.push(ScryptCall {
            password: password.to_vec(),
            salt: salt.to_vec(),
            log_n: params.log_n,
            r: params.r,
            p: params.p,
            len: 0,
            out: vec![],
        });
    }
    // a longer output extends a shorter one, as with PBKDF2
    let have = m.scrypt[found].out.len();
    if have < output.len() {
        if m.scrypt_symbolic {
            let mut o = m.scrypt[found].out.clone();
            o.extend(psym::bytes(output.len() - have, "scrypt"));
            m.scrypt[found].out = o;
        } else {
            let mut o = vec![0u8; output.len()];
            stream(0x5c, found as u64, &mut o);
            m.scrypt[found].out = o;
        }
    }
    let c = &m.scrypt[found];
    output.copy_from_slice(&c.out[..output.len()]);
    let mut l = c.clone();
    l.len = output.len();
    l.out.truncate(output.len());
    m.scrypt_log.push(l);
    Ok(())
}
