//! File system on the simulated disk.
use ::std::ffi::OsString;
use ::std::io::{self, IoSlice, Read, Seek, SeekFrom, Write};
use ::std::path::{Path, PathBuf};
use ::std::sync::atomic::{AtomicU64, Ordering};
use ::std::sync::Arc;
use crate::time::SystemTime;
use simcore::disk::{self, Kind};

fn s(p: impl AsRef<Path>) -> String { p.as_ref().to_string_lossy().into_owned() }

enum Obj { File(disk::Handle), Dir(String) }
pub struct File { o: Arc<Obj>, pos: Arc<AtomicU64>, append: bool, read: bool, write: bool }
impl ::std::fmt::Debug for File { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "File") } }

#[derive(Clone, Debug)]
pub struct OpenOptions(disk::OpenOpts);
impl OpenOptions {
    pub fn new() -> Self { OpenOptions(Default::default()) }
    pub fn read(&mut self, b: bool) -> &mut Self { self.0.read = b; self }
    pub fn write(&mut self, b: bool) -> &mut Self { self.0.write = b; self }
    pub fn append(&mut self, b: bool) -> &mut Self { self.0.append = b; self }
    pub fn truncate(&mut self, b: bool) -> &mut Self { self.0.truncate = b; self }
    pub fn create(&mut self, b: bool) -> &mut Self { self.0.create = b; self }
    pub fn create_new(&mut self, b: bool) -> &mut Self { self.0.create_new = b; self }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        let path = s(p);
        let o = &self.0;
        if disk::is_dir(&path) && o.read && !o.write && !o.append && !o.create && !o.truncate {
            simcore::point(simcore::site::FS_OPEN, 1);
            return Ok(File { o: Arc::new(Obj::Dir(path)), pos: Arc::new(AtomicU64::new(0)), append: false, read: true, write: false });
        }
        let h = disk::open(&path, o)?;
        Ok(File { o: Arc::new(Obj::File(h)), pos: Arc::new(AtomicU64::new(0)), append: o.append, read: o.read, write: o.write || o.append })
    }
}
pub trait OpenOptionsExt { fn mode(&mut self, m: u32) -> &mut Self; fn custom_flags(&mut self, f: i32) -> &mut Self; }
impl OpenOptionsExt for OpenOptions { fn mode(&mut self, _: u32) -> &mut Self { self } fn custom_flags(&mut self, _: i32) -> &mut Self { self } }

fn ebadf() -> io::Error { io::Error::from_raw_os_error(9) }
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().read(true).open(p) }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().write(true).create(true).truncate(true).open(p) }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> { OpenOptions::new().read(true).write(true).create_new(true).open(p) }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    fn h(&self) -> io::Result<&disk::Handle> { match &*self.o { Obj::File(h) => Ok(h), Obj::Dir(_) => Err(io::Error::from_raw_os_error(21)) } }
    pub fn sync_all(&self) -> io::Result<()> { match &*self.o { Obj::File(h) => disk::sync(h), Obj::Dir(_) => disk::sync_dir() } }
    pub fn sync_data(&self) -> io::Result<()> { self.sync_all() }
    pub fn set_len(&self, n: u64) -> io::Result<()> { if !self.write { return Err(io::Error::from_raw_os_error(22)); } disk::set_len(self.h()?, n) }
    pub fn metadata(&self) -> io::Result<Metadata> { Ok(Metadata(match &*self.o { Obj::File(h) => disk::handle_stat(h), Obj::Dir(p) => disk::stat(p)? })) }
    pub fn try_clone(&self) -> io::Result<File> { Ok(File { o: self.o.clone(), pos: self.pos.clone(), append: self.append, read: self.read, write: self.write }) }
    pub fn set_permissions(&self, _: Permissions) -> io::Result<()> { Ok(()) }
    pub fn lock(&self) -> io::Result<()> { Ok(()) }
    pub fn unlock(&self) -> io::Result<()> { Ok(()) }
    fn rd(&self, b: &mut [u8]) -> io::Result<usize> {
        if !self.read { return Err(ebadf()); }
        let p = self.pos.load(Ordering::SeqCst);
        let n = disk::read_at(self.h()?, p, b)?;
        self.pos.store(p + n as u64, Ordering::SeqCst);
        Ok(n)
    }
    fn wr(&self, b: &[u8]) -> io::Result<usize> {
        if !self.write { return Err(ebadf()); }
        let off = if self.append { None } else { Some(self.pos.load(Ordering::SeqCst)) };
        let (n, end) = disk::write_at(self.h()?, off, b)?;
        self.pos.store(end, Ordering::SeqCst);
        Ok(n)
    }
    fn sk(&self, p: SeekFrom) -> io::Result<u64> {
        let cur = self.pos.load(Ordering::SeqCst) as i128;
        let n = match p { SeekFrom::Start(n) => n as i128, SeekFrom::Current(d) => cur + d as i128, SeekFrom::End(d) => self.metadata()?.len() as i128 + d as i128 };
        if n < 0 { return Err(io::Error::from_raw_os_error(22)); }
        self.pos.store(n as u64, Ordering::SeqCst);
        Ok(n as u64)
    }
}
impl Read for File { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b) } }
impl Write for File { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn write_vectored(&mut self, v: &[IoSlice<'_>]) -> io::Result<usize> { self.wr(v.iter().find(|x| !x.is_empty()).map_or(&[][..], |x| &**x)) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl Seek for File { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.sk(p) } }
impl Read for &File { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b) } }
impl Write for &File { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl Seek for &File { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.sk(p) } }
pub trait FileExt {
    fn read_at(&self, b: &mut [u8], off: u64) -> io::Result<usize>;
    fn write_at(&self, b: &[u8], off: u64) -> io::Result<usize>;
    fn read_exact_at(&self, mut b: &mut [u8], mut off: u64) -> io::Result<()> {
        while !b.is_empty() { match self.read_at(b, off) { Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()), Ok(n) => { b = &mut b[n..]; off += n as u64 } Err(e) if e.kind() == io::ErrorKind::Interrupted => {} Err(e) => return Err(e) } }
        Ok(())
    }
    fn write_all_at(&self, mut b: &[u8], mut off: u64) -> io::Result<()> {
        while !b.is_empty() { match self.write_at(b, off) { Ok(0) => return Err(io::ErrorKind::WriteZero.into()), Ok(n) => { b = &b[n..]; off += n as u64 } Err(e) if e.kind() == io::ErrorKind::Interrupted => {} Err(e) => return Err(e) } }
        Ok(())
    }
}
impl FileExt for File {
    fn read_at(&self, b: &mut [u8], off: u64) -> io::Result<usize> { disk::read_at(self.h()?, off, b) }
    fn write_at(&self, b: &[u8], off: u64) -> io::Result<usize> { disk::write_at(self.h()?, Some(off), b).map(|x| x.0) }
}

#[derive(Clone, Debug)]
pub struct Metadata(disk::Stat);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct FileType(bool);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Permissions(bool);
impl Permissions { pub fn readonly(&self) -> bool { self.0 } pub fn set_readonly(&mut self, b: bool) { self.0 = b } }
impl FileType { pub fn is_dir(&self) -> bool { self.0 } pub fn is_file(&self) -> bool { !self.0 } pub fn is_symlink(&self) -> bool { false } }
impl Metadata {
    pub fn is_dir(&self) -> bool { self.0.kind == Kind::Dir }
    pub fn is_file(&self) -> bool { self.0.kind == Kind::File }
    pub fn is_symlink(&self) -> bool { false }
    pub fn file_type(&self) -> FileType { FileType(self.is_dir()) }
    pub fn len(&self) -> u64 { self.0.len }
    pub fn permissions(&self) -> Permissions { Permissions(false) }
    pub fn modified(&self) -> io::Result<SystemTime> { Ok(SystemTime::from_ns(self.0.mtime_ns)) }
    pub fn accessed(&self) -> io::Result<SystemTime> { self.modified() }
    pub fn created(&self) -> io::Result<SystemTime> { self.modified() }
}
pub struct ReadDir { base: PathBuf, it: ::std::vec::IntoIter<(String, Kind)> }
impl ::std::fmt::Debug for ReadDir { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "ReadDir({:?})", self.base) } }
#[derive(Debug)]
pub struct DirEntry { base: PathBuf, name: String, dir: bool }
impl Iterator for ReadDir { type Item = io::Result<DirEntry>; fn next(&mut self) -> Option<Self::Item> { self.it.next().map(|(n, k)| Ok(DirEntry { base: self.base.clone(), name: n, dir: k == Kind::Dir })) } }
impl DirEntry {
    pub fn path(&self) -> PathBuf { self.base.join(&self.name) }
    pub fn file_name(&self) -> OsString { OsString::from(&self.name) }
    pub fn file_type(&self) -> io::Result<FileType> { Ok(FileType(self.dir)) }
    pub fn metadata(&self) -> io::Result<Metadata> { metadata(self.path()) }
}
pub fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> { let v = disk::readdir(&s(&p))?; Ok(ReadDir { base: p.as_ref().to_path_buf(), it: v.into_iter() }) }
pub fn metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> { disk::stat(&s(p)).map(Metadata) }
pub fn symlink_metadata<P: AsRef<Path>>(p: P) -> io::Result<Metadata> { metadata(p) }
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> { Ok(metadata(p).is_ok()) }
pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> { let mut v = vec![]; File::open(p)?.read_to_end(&mut v)?; Ok(v) }
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> { let mut v = String::new(); File::open(p)?.read_to_string(&mut v)?; Ok(v) }
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> { File::create(p)?.write_all(c.as_ref()) }
pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> { disk::mkdir(&s(p)) }
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> { disk::mkdir_all(&s(p)) }
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> { disk::remove_file(&s(p)) }
pub fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> { disk::remove_dir(&s(p)) }
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> { disk::remove_dir_all(&s(p)) }
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> { disk::rename(&s(a), &s(b)) }
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> { let v = read(a)?; write(b, &v)?; Ok(v.len() as u64) }
pub fn canonicalize<P: AsRef<Path>>(p: P) -> io::Result<PathBuf> { disk::canonical(&s(p)).map(PathBuf::from) }
pub fn set_permissions<P: AsRef<Path>>(_: P, _: Permissions) -> io::Result<()> { Ok(()) }
#[derive(Debug)]
pub struct DirBuilder(bool);
impl DirBuilder {
    pub fn new() -> Self { DirBuilder(false) }
    pub fn recursive(&mut self, b: bool) -> &mut Self { self.0 = b; self }
    pub fn create<P: AsRef<Path>>(&self, p: P) -> io::Result<()> { if self.0 { create_dir_all(p) } else { create_dir(p) } }
}
