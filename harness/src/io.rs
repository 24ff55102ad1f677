//! An in-memory StorageIO.
use pfp::error::Error;
use pfp::storage_io::StorageIO;

#[derive(Debug, Clone)]
pub struct MemIO {
    pub data: Vec<(String, String)>,
    pub flushed: Vec<(String, String)>,
    pub flushes: usize,
    pub fail_flush: bool,
}
impl MemIO {
    pub fn new() -> Self {
        MemIO { data: vec![], flushed: vec![], flushes: 0, fail_flush: false }
    }
}
impl StorageIO for MemIO {
    fn contains_key(&self, key: &str) -> bool {
        self.data.iter().any(|(k, _)| k == key)
    }
    fn get(&self, key: &str) -> Result<&String, Error> {
        self.data.iter().find(|(k, _)| k == key).map(|(_, v)| v).ok_or(Error::KeyMissing)
    }
    fn set(&mut self, key: String, value: String) {
        for e in self.data.iter_mut() {
            if e.0 == key {
                e.1 = value;
                return;
            }
        }
        self.data.push((key, value));
    }
    fn remove(&mut self, key: &str) -> Result<(), Error> {
        let n = self.data.len();
        self.data.retain(|(k, _)| k != key);
        if self.data.len() == n { Err(Error::KeyMissing) } else { Ok(()) }
    }
    fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_> {
        Box::new(self.data.iter().map(|(k, _)| k))
    }
    fn clear(&mut self) {
        self.data.clear();
    }
    fn flush(&mut self) -> Result<(), Error> {
        self.flushed = self.data.clone();
        self.flushes += 1;
        Ok(())
    }
}

/// A handle of storage that outlives its user: what is in it can be looked at, and it can be
/// opened again.
#[derive(Debug, Clone, Copy)]
pub struct Shared(*mut MemIO);
impl Shared {
    pub fn new() -> Self {
        Shared(Box::into_raw(Box::new(MemIO::new())))
    }
    pub fn of(data: Vec<(String, String)>) -> Self {
        let r = Shared::new();
        r.it().flushed = data.clone();
        r.it().data = data;
        r
    }
    pub fn it(&self) -> &'static mut MemIO {
        unsafe { &mut *self.0 }
    }
    /// What another process would find: the data as last flushed.
    pub fn reopen(&self) -> Shared {
        Shared::of(self.it().flushed.clone())
    }
    pub fn value(&self, key: &str) -> Option<String> {
        self.it().data.iter().find(|(k, _)| k == key).map(|(_, v)| v.clone())
    }
    pub fn put(&self, key: &str, value: &str) {
        self.it().set(key.to_string(), value.to_string());
        self.it().flushed = self.it().data.clone();
    }
    /// Nothing is waiting to be flushed.
    pub fn saved(&self) -> bool {
        same_data(&self.it().data, &self.it().flushed)
    }
}
pub fn same_data(a: &[(String, String)], b: &[(String, String)]) -> bool {
    a.len() == b.len()
        && a.iter().all(|(k, v)| {
            b.iter().any(|(l, w)| k == l && v == w)
        })
}
impl StorageIO for Shared {
    fn contains_key(&self, key: &str) -> bool {
        self.it().contains_key(key)
    }
    fn get(&self, key: &str) -> Result<&String, Error> {
        self.it().get(key)
    }
    fn set(&mut self, key: String, value: String) {
        self.it().set(key, value)
    }
    fn remove(&mut self, key: &str) -> Result<(), Error> {
        self.it().remove(key)
    }
    fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_> {
        self.it().keys()
    }
    fn clear(&mut self) {
        self.it().clear()
    }
    fn flush(&mut self) -> Result<(), Error> {
        if self.it().fail_flush {
            return Err(Error::FileWriteFailure { error: std::io::ErrorKind::Other.into() });
        }
        self.it().flush()
    }
}
