//! Files: the real file system below the run's scratch directory, with every
//! operation a seam, faults injected, and no effect after the simulated crash.
use crate::rt;
use ::std::io::{self, Read, Seek, SeekFrom, Write};
use ::std::path::{Path, PathBuf};
pub use ::std::fs::*;

fn os(e: i32) -> io::Error {
    io::Error::from_raw_os_error(e)
}

fn gone() -> io::Error {
    os(5)
}

/// seam + fault decision for an operation that changes nothing
fn look(op: &'static str, p: &Path) -> io::Result<()> {
    rt::seam(op);
    if rt::is_dead() {
        return Err(gone());
    }
    match rt::try_with(|i| i.fs_fault(op, p)).flatten() {
        Some(e) => Err(os(e)),
        None => Ok(()),
    }
}

/// the same for an operation that changes `p`
fn touch(op: &'static str, p: &Path) -> io::Result<()> {
    look(op, p)?;
    if !rt::contained(op, p) {
        return Err(os(13));
    }
    Ok(())
}

fn changed(op: &'static str, p: &Path) {
    let _ = rt::try_with(|i| i.disk_changed(op, p));
}

#[derive(Debug)]
pub struct File {
    f: ::std::fs::File,
    path: PathBuf,
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new()
            .write(true)
            .create(true)
            .truncate(true)
            .open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new()
            .read(true)
            .write(true)
            .create_new(true)
            .open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        look("stat", &self.path)?;
        self.f.metadata()
    }
    pub fn sync_all(&self) -> io::Result<()> {
        look("sync", &self.path)
    }
    pub fn sync_data(&self) -> io::Result<()> {
        look("sync", &self.path)
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        touch("write", &self.path)?;
        self.f.set_len(n)?;
        changed("write", &self.path);
        Ok(())
    }
    pub fn set_permissions(&self, p: Permissions) -> io::Result<()> {
        look("chmod", &self.path)?;
        self.f.set_permissions(p)
    }
    pub fn try_clone(&self) -> io::Result<File> {
        Ok(File {
            f: self.f.try_clone()?,
            path: self.path.clone(),
        })
    }
    fn do_read(&self, b: &mut [u8]) -> io::Result<usize> {
        look("read", &self.path)?;
        let n = rt::try_with(|i| {
            if b.len() > 1 && i.fs_fault_den > 0 && i.ctx.chance(1, 8) {
                i.ctx.fault("fs-short-read");
                1 + i.ctx.draw(b.len() as u64 - 1) as usize
            } else {
                b.len()
            }
        })
        .unwrap_or(b.len());
        (&self.f).read(&mut b[..n])
    }
    fn do_write(&self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        touch("write", &self.path)?;
        // a write may be cut short; a crash right after leaves the prefix
        let n = rt::try_with(|i| {
            if b.len() > 1 && (i.fs_fault_den > 0 || i.crash_in.is_some()) && i.ctx.chance(1, 4) {
                i.ctx.fault("fs-short-write");
                1 + i.ctx.draw(b.len() as u64 - 1) as usize
            } else {
                b.len()
            }
        })
        .unwrap_or(b.len());
        let r = (&self.f).write(&b[..n])?;
        changed("write", &self.path);
        Ok(r)
    }
}

impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.do_read(b)
    }
}
impl Read for &File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.do_read(b)
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.do_write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.do_write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        (&self.f).seek(p)
    }
}
impl Seek for &File {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        (&self.f).seek(p)
    }
}

#[derive(Clone, Debug)]
pub struct OpenOptions {
    o: ::std::fs::OpenOptions,
    w: bool,
    c: bool,
    t: bool,
}

impl Default for OpenOptions {
    fn default() -> Self {
        Self::new()
    }
}

impl OpenOptions {
    pub fn new() -> Self {
        OpenOptions {
            o: ::std::fs::OpenOptions::new(),
            w: false,
            c: false,
            t: false,
        }
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.o.read(v);
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.o.write(v);
        self.w = v;
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.o.append(v);
        self.w |= v;
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.o.truncate(v);
        self.t = v;
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.o.create(v);
        self.c = v;
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.o.create_new(v);
        self.c = v;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        let p = p.as_ref();
        if self.w || self.c || self.t {
            touch("create", p)?;
        } else {
            look("open", p)?;
        }
        let f = self.o.open(p)?;
        if self.c || self.t {
            changed("create", p);
        }
        Ok(File {
            f,
            path: rt::normalise(p),
        })
    }
}

pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut f = File::open(p)?;
    let mut v = Vec::new();
    f.read_to_end(&mut v)?;
    Ok(v)
}

pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let v = read(p)?;
    String::from_utf8(v)
        .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
}

pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    let mut f = File::create(p)?;
    f.write_all(c.as_ref())
}

pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<u64> {
    let mut r = File::open(from.as_ref())?;
    if !r.f.metadata()?.is_file() {
        return Err(io::Error::new(io::ErrorKind::InvalidInput, "the source path is neither a regular file nor a symlink to a regular file"));
    }
    // as std does: the target is opened and truncated first
    let mut w = File::create(to.as_ref())?;
    let mut buf = vec![0u8; 4096];
    let mut total = 0;
    loop {
        let n = r.read(&mut buf)?;
        if n == 0 {
            return Ok(total);
        }
        w.write_all(&buf[..n])?;
        total += n as u64;
    }
}

pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
    touch("remove", p.as_ref())?;
    ::std::fs::remove_file(p.as_ref())?;
    changed("remove", p.as_ref());
    Ok(())
}

pub fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    touch("remove", p.as_ref())?;
    ::std::fs::remove_dir(p.as_ref())?;
    changed("remove", p.as_ref());
    Ok(())
}

pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let p = p.as_ref();
    touch("remove", p)?;
    let meta = ::std::fs::symlink_metadata(p)?;
    if !meta.is_dir() {
        return Err(os(20));
    }
    for e in sorted(p)? {
        let e = e.path();
        if ::std::fs::symlink_metadata(&e).map(|m| m.is_dir()).unwrap_or(false) {
            remove_dir_all(&e)?;
        } else {
            remove_file(&e)?;
        }
    }
    ::std::fs::remove_dir(p)?;
    changed("remove", p);
    Ok(())
}

pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    touch("mkdir", p.as_ref())?;
    ::std::fs::create_dir(p.as_ref())
}

pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let p = p.as_ref();
    look("stat", p)?;
    if p.is_dir() {
        return Ok(());
    }
    touch("mkdir", p)?;
    ::std::fs::create_dir_all(p)
}

pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    touch("rename", a.as_ref())?;
    if !rt::contained("rename", b.as_ref()) {
        return Err(os(13));
    }
    ::std::fs::rename(a.as_ref(), b.as_ref())?;
    changed("rename", b.as_ref());
    Ok(())
}

pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> {
    touch("create", b.as_ref())?;
    ::std::fs::hard_link(a.as_ref(), b.as_ref())
}

pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> {
    look("stat", p.as_ref())?;
    ::std::fs::metadata(p.as_ref())
}

pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> {
    look("stat", p.as_ref())?;
    p.as_ref().try_exists()
}

pub fn set_permissions<P: AsRef<Path>>(p: P, m: Permissions) -> io::Result<()> {
    touch("chmod", p.as_ref())?;
    ::std::fs::set_permissions(p.as_ref(), m)
}

fn sorted(p: &Path) -> io::Result<Vec<::std::fs::DirEntry>> {
    let mut v = ::std::fs::read_dir(p)?.collect::<io::Result<Vec<_>>>()?;
    v.sort_by_key(|e| e.file_name());
    Ok(v)
}

/// A listing in an order the choice stream picked.
#[derive(Debug)]
pub struct ReadDir(::std::vec::IntoIter<::std::fs::DirEntry>);

impl Iterator for ReadDir {
    type Item = io::Result<::std::fs::DirEntry>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(Ok)
    }
}

pub fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> {
    look("readdir", p.as_ref())?;
    let mut v = sorted(p.as_ref())?;
    let _ = rt::try_with(|i| {
        for k in (1..v.len()).rev() {
            let j = i.ctx.draw(k as u64 + 1) as usize;
            v.swap(k, k - j);
        }
    });
    Ok(ReadDir(v.into_iter()))
}
