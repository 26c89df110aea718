//! `std` as the dump and load tools see it: everything is the real `std`, except that files are in memory. What
//! becomes of each write to a file is decided by the harness (`verif_faults`): all of it is written, a part of it, or it fails.
pub use ::std::*;

pub use ::std::io;
use ::std::path::{Path, PathBuf};
use ::std::sync::{Arc, Mutex};

type Data = Arc<Mutex<Vec<u8>>>;
static FILES: Mutex<Vec<(PathBuf, Data)>> = Mutex::new(Vec::new());
type Fault = fn(&Path, usize, usize) -> io::Result<usize>;
static FAULTS: Mutex<Option<Fault>> = Mutex::new(None);

/// `f` is asked how many of the bytes of a write to a file, at a place, are written.
pub fn verif_faults(f: Option<Fault>) {
    *FAULTS.lock().unwrap() = f;
}
fn lookup(p: &Path) -> Option<Data> {
    FILES.lock().unwrap().iter().find(|f| f.0 == p).map(|f| f.1.clone())
}
pub fn verif_read(p: &str) -> Option<Vec<u8>> {
    lookup(Path::new(p)).map(|d| d.lock().unwrap().clone())
}
pub fn verif_write(p: &str, data: &[u8]) {
    fs::File::create(p).unwrap();
    *lookup(Path::new(p)).unwrap().lock().unwrap() = data.to_vec();
}

pub mod env {
    pub use ::std::env::*;
    pub fn temp_dir() -> super::PathBuf {
        "/mem/tmp".into()
    }
}

pub mod fs {
    pub use ::std::fs::{Metadata, Permissions};
    use ::std::io::{self, Read, Seek, SeekFrom, Write};
    use ::std::path::{Path, PathBuf};
    use ::std::prelude::v1::*;

    #[derive(Debug)]
    pub struct File {
        path: PathBuf,
        data: super::Data,
        pos: ::std::cell::Cell<usize>,
        readable: bool,
        writable: bool,
    }

    #[derive(Clone, Debug, Default)]
    pub struct OpenOptions {
        read: bool,
        write: bool,
        append: bool,
        truncate: bool,
        create: bool,
        create_new: bool,
    }
    macro_rules! opts {
        ($($n:ident)*) => { $(pub fn $n(&mut self, v: bool) -> &mut Self { self.$n = v; self })* };
    }
    impl OpenOptions {
        pub fn new() -> Self {
            Self::default()
        }
        opts!(read write append truncate create create_new);
        pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
            let p = p.as_ref();
            let found = super::lookup(p);
            if found.is_some() && self.create_new {
                return Err(io::ErrorKind::AlreadyExists.into());
            }
            let data = match found {
                Some(d) => d,
                None if self.create || self.create_new => {
                    let d = super::Data::default();
                    super::FILES.lock().unwrap().push((p.to_path_buf(), d.clone()));
                    d
                }
                None => return Err(io::ErrorKind::NotFound.into()),
            };
            if self.truncate {
                data.lock().unwrap().clear();
            }
            let pos = if self.append { data.lock().unwrap().len() } else { 0 };
            Ok(File { path: p.to_path_buf(), data, pos: pos.into(), readable: self.read, writable: self.write || self.append })
        }
    }
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
            OpenOptions::new().read(true).open(p)
        }
        pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
            OpenOptions::new().write(true).create(true).truncate(true).open(p)
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
        pub fn sync_all(&self) -> io::Result<()> {
            Ok(())
        }
        pub fn sync_data(&self) -> io::Result<()> {
            Ok(())
        }
        fn get(&self, buf: &mut [u8]) -> io::Result<usize> {
            if !self.readable {
                return Err(io::ErrorKind::PermissionDenied.into());
            }
            let d = self.data.lock().unwrap();
            let at = self.pos.get().min(d.len());
            let n = buf.len().min(d.len() - at);
            buf[..n].copy_from_slice(&d[at..at + n]);
            self.pos.set(at + n);
            Ok(n)
        }
        fn put(&self, buf: &[u8]) -> io::Result<usize> {
            if !self.writable {
                return Err(io::ErrorKind::PermissionDenied.into());
            }
            let faults = *super::FAULTS.lock().unwrap();
            let n = match faults {
                Some(f) => f(&self.path, self.pos.get(), buf.len())?,
                None => buf.len(),
            };
            let mut d = self.data.lock().unwrap();
            let at = self.pos.get();
            if d.len() < at + n {
                d.resize(at + n, 0);
            }
            d[at..at + n].copy_from_slice(&buf[..n]);
            self.pos.set(at + n);
            Ok(n)
        }
        fn to(&self, s: SeekFrom) -> io::Result<u64> {
            let p = match s {
                SeekFrom::Start(n) => n as i64,
                SeekFrom::End(n) => self.data.lock().unwrap().len() as i64 + n,
                SeekFrom::Current(n) => self.pos.get() as i64 + n,
            };
            if p < 0 {
                return Err(io::ErrorKind::InvalidInput.into());
            }
            self.pos.set(p as usize);
            Ok(p as u64)
        }
    }
    impl Read for File {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.get(buf)
        }
    }
    impl Read for &File {
        fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
            self.get(buf)
        }
    }
    impl Write for File {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            self.put(buf)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Write for &File {
        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
            self.put(buf)
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
    impl Seek for File {
        fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
            self.to(s)
        }
    }

    pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
        let mut v = Vec::new();
        File::open(p)?.read_to_end(&mut v)?;
        Ok(v)
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
        let mut v = String::new();
        File::open(p)?.read_to_string(&mut v)?;
        Ok(v)
    }
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
        File::create(p)?.write_all(c.as_ref())
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
        let mut f = super::FILES.lock().unwrap();
        match f.iter().position(|f| f.0 == p.as_ref()) {
            Some(i) => {
                f.remove(i);
                Ok(())
            }
            None => Err(io::ErrorKind::NotFound.into()),
        }
    }
    pub fn create_dir_all<P: AsRef<Path>>(_: P) -> io::Result<()> {
        Ok(())
    }
    pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> {
        Ok(p.as_ref().to_path_buf())
    }
}

/// No file of the real system exists for the checker (`Path::exists` asks the system itself; natively nothing is at /mem).
#[cfg(carmen_sym)]
mod system {
    static mut ERRNO: i32 = 2;
    #[no_mangle]
    extern "C" fn statx(_: i32, _: *const u8, _: i32, _: u32, _: *mut u8) -> i32 {
        -1
    }
    #[no_mangle]
    extern "C" fn stat64(_: *const u8, _: *mut u8) -> i32 {
        -1
    }
    /// The keys of hash maps.
    #[no_mangle]
    unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _: u32) -> isize {
        for i in 0..n {
            *p.add(i) = 7;
        }
        n as isize
    }
    #[no_mangle]
    extern "C" fn __errno_location() -> *mut i32 {
        &raw mut ERRNO
    }
}
