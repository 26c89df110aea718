//! Stand-in for apendleton/rust-rocksdb (git dependency, not fetchable offline).
//! Contract: a sorted byte-string map per path, put overwrites, iterators are in key order.
//! Durability and compaction are not modelled. An operation can be made to fail (`verif_fail_at`, `verif_fail_after`).
use std::fmt;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

type Table = Arc<Mutex<Vec<(Box<[u8]>, Box<[u8]>)>>>;

static REGISTRY: Mutex<Vec<(PathBuf, Table)>> = Mutex::new(Vec::new());

/// 0: every operation succeeds; n: the n-th from now fails, and all after it unless `ONCE`.
static ONCE: AtomicUsize = AtomicUsize::new(0);
static LEFT: AtomicUsize = AtomicUsize::new(0);
static FAILED: AtomicUsize = AtomicUsize::new(0);
pub fn verif_fail_at(n: usize) {
    verif_fail_after(n);
    ONCE.store(1, Relaxed);
}
pub fn verif_fail_after(n: usize) {
    ONCE.store(0, Relaxed);
    LEFT.store(n, Relaxed);
    FAILED.store(0, Relaxed);
}
/// How many operations failed since then.
pub fn verif_failed() -> usize {
    FAILED.load(Relaxed)
}
fn works() -> Result<(), Error> {
    match LEFT.load(Relaxed) {
        0 => Ok(()),
        1 => {
            if ONCE.load(Relaxed) == 1 {
                LEFT.store(0, Relaxed);
            }
            FAILED.store(FAILED.load(Relaxed) + 1, Relaxed);
            Err(Error::new("IO error".to_owned()))
        }
        n => {
            LEFT.store(n - 1, Relaxed);
            Ok(())
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn new(message: String) -> Error {
        Error { message }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl std::error::Error for Error {}

#[derive(Default, Debug, Clone)]
pub struct Options {
    create: bool,
    read_only: bool,
}
impl Options {
    pub fn set_disable_auto_compactions(&mut self, _v: bool) {}
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v;
    }
    pub fn set_read_only(&mut self, v: bool) {
        self.read_only = v;
    }
    pub fn set_allow_mmap_reads(&mut self, _v: bool) {}
}

pub enum Direction {
    Forward,
    Reverse,
}
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

pub struct DBVector(Box<[u8]>);
impl Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

pub struct DB {
    table: Table,
    read_only: bool,
}
impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("RocksDB")
    }
}

pub struct DBIterator {
    rows: std::vec::IntoIter<(Box<[u8]>, Box<[u8]>)>,
}
impl Iterator for DBIterator {
    type Item = (Box<[u8]>, Box<[u8]>);
    fn next(&mut self) -> Option<Self::Item> {
        self.rows.next()
    }
}

impl DB {
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> {
        works()?;
        let path = path.as_ref();
        let mut reg = REGISTRY.lock().unwrap();
        for (p, t) in reg.iter() {
            if p.as_os_str() == path.as_os_str() {
                return Ok(DB { table: t.clone(), read_only: opts.read_only });
            }
        }
        if !opts.create {
            return Err(Error::new("no such database".to_owned()));
        }
        let table: Table = Arc::new(Mutex::new(Vec::new()));
        reg.push((path.to_owned(), table.clone()));
        Ok(DB { table, read_only: opts.read_only })
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        if self.read_only {
            return Err(Error::new("read only".to_owned()));
        }
        works()?;
        let (key, value) = (key.as_ref(), value.as_ref());
        let mut rows = self.table.lock().unwrap();
        let mut pos = rows.len();
        while pos > 0 {
            match rows[pos - 1].0[..].cmp(key) {
                std::cmp::Ordering::Less => break,
                std::cmp::Ordering::Equal => {
                    rows[pos - 1].1 = value.into();
                    return Ok(());
                }
                std::cmp::Ordering::Greater => pos -= 1,
            }
        }
        rows.insert(pos, (key.into(), value.into()));
        Ok(())
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<DBVector>, Error> {
        works()?;
        let key = key.as_ref();
        let rows = self.table.lock().unwrap();
        for (k, v) in rows.iter() {
            if &k[..] == key {
                return Ok(Some(DBVector(v.clone())));
            }
        }
        Ok(None)
    }

    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        works()?;
        let key = key.as_ref();
        self.table.lock().unwrap().retain(|(k, _)| &k[..] != key);
        Ok(())
    }

    pub fn iterator(&self, mode: IteratorMode) -> DBIterator {
        let rows = self.table.lock().unwrap();
        let mut out: Vec<(Box<[u8]>, Box<[u8]>)> = Vec::with_capacity(rows.len());
        match mode {
            IteratorMode::Start => out.extend(rows.iter().cloned()),
            IteratorMode::End => out.extend(rows.iter().rev().cloned()),
            IteratorMode::From(from, Direction::Forward) => {
                let mut i = 0;
                while i < rows.len() && &rows[i].0[..] < from {
                    i += 1;
                }
                out.extend(rows[i..].iter().cloned());
            }
            IteratorMode::From(from, Direction::Reverse) => {
                let mut i = rows.len();
                while i > 0 && &rows[i - 1].0[..] > from {
                    i -= 1;
                }
                out.extend(rows[..i].iter().rev().cloned());
            }
        }
        DBIterator { rows: out.into_iter() }
    }

    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _start: Option<S>, _end: Option<E>) {}
    pub fn flush(&self) -> Result<(), Error> {
        works()
    }
}
