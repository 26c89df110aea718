//! Stand-in for tempfile: a fresh path, which only the stand-in for rocksdb sees.
use std::io;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

static NEXT: AtomicUsize = AtomicUsize::new(0);

#[derive(Debug)]
pub struct TempDir {
    path: PathBuf,
}
impl TempDir {
    pub fn new() -> io::Result<TempDir> {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let mut s = String::from("/mem/tmp");
        for d in [n / 100 % 10, n / 10 % 10, n % 10] {
            s.push((b'0' + d as u8) as char);
        }
        Ok(TempDir { path: PathBuf::from(s) })
    }
    pub fn path(&self) -> &Path {
        &self.path
    }
    pub fn close(self) -> io::Result<()> {
        Ok(())
    }
    pub fn into_path(self) -> PathBuf {
        self.path.clone()
    }
}
pub fn tempdir() -> io::Result<TempDir> {
    TempDir::new()
}
