//! The part of tempfile's interface that non-test code may use, on the simulated disk.
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use vsim_std::fs::{self, File, OpenOptions};

fn name(prefix: &str, suffix: &str) -> String {
    let mut b = [0u8; 6];
    simcore::entropy(&mut b);
    format!("{}{}{}", prefix, b.iter().map(|x| (b'a' + x % 26) as char).collect::<String>(), suffix)
}
fn tmp() -> PathBuf { let p = PathBuf::from("/sim/tmp"); let _ = fs::create_dir_all(&p); p }
fn create_in(dir: &Path, prefix: &str, suffix: &str) -> io::Result<(File, PathBuf)> {
    loop {
        let p = dir.join(name(prefix, suffix));
        match OpenOptions::new().read(true).write(true).create_new(true).open(&p) {
            Ok(f) => return Ok((f, p)),
            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {}
            Err(e) => return Err(e),
        }
    }
}

pub struct TempPath { path: PathBuf, keep: bool }
impl TempPath {
    pub fn persist<P: AsRef<Path>>(mut self, to: P) -> Result<(), PathPersistError> {
        match fs::rename(&self.path, to.as_ref()) { Ok(()) => { self.keep = true; Ok(()) } Err(error) => Err(PathPersistError { error, path: self }) }
    }
    pub fn keep(mut self) -> Result<PathBuf, PathPersistError> { self.keep = true; Ok(self.path.clone()) }
    pub fn close(mut self) -> io::Result<()> { self.keep = true; fs::remove_file(&self.path) }
}
impl std::ops::Deref for TempPath { type Target = Path; fn deref(&self) -> &Path { &self.path } }
impl AsRef<Path> for TempPath { fn as_ref(&self) -> &Path { &self.path } }
impl Drop for TempPath { fn drop(&mut self) { if !self.keep { let _ = fs::remove_file(&self.path); } } }
impl fmt::Debug for TempPath { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.path.fmt(f) } }

#[derive(Debug)]
pub struct PathPersistError { pub error: io::Error, pub path: TempPath }
impl From<PathPersistError> for io::Error { fn from(e: PathPersistError) -> io::Error { e.error } }
impl fmt::Display for PathPersistError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "failed to persist temporary file path: {}", self.error) } }
impl std::error::Error for PathPersistError {}

#[derive(Debug)]
pub struct NamedTempFile { path: TempPath, file: File }
impl NamedTempFile {
    pub fn new() -> io::Result<Self> { Self::new_in(tmp()) }
    pub fn new_in<P: AsRef<Path>>(dir: P) -> io::Result<Self> { Builder::new().tempfile_in(dir) }
    pub fn path(&self) -> &Path { &self.path }
    pub fn as_file(&self) -> &File { &self.file }
    pub fn as_file_mut(&mut self) -> &mut File { &mut self.file }
    pub fn into_file(self) -> File { self.file }
    pub fn into_temp_path(self) -> TempPath { self.path }
    pub fn into_parts(self) -> (File, TempPath) { (self.file, self.path) }
    pub fn close(self) -> io::Result<()> { self.path.close() }
    pub fn persist<P: AsRef<Path>>(self, to: P) -> Result<File, PersistError> {
        let NamedTempFile { path, file } = self;
        match path.persist(to) { Ok(()) => Ok(file), Err(e) => Err(PersistError { error: e.error, file: NamedTempFile { path: e.path, file } }) }
    }
    pub fn persist_noclobber<P: AsRef<Path>>(self, to: P) -> Result<File, PersistError> {
        if fs::metadata(to.as_ref()).is_ok() { return Err(PersistError { error: io::ErrorKind::AlreadyExists.into(), file: self }); }
        self.persist(to)
    }
    pub fn keep(mut self) -> Result<(File, PathBuf), PersistError> { self.path.keep = true; let p = self.path.path.clone(); Ok((self.file, p)) }
}
impl AsRef<Path> for NamedTempFile { fn as_ref(&self) -> &Path { self.path() } }
impl Write for NamedTempFile { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.file.write(b) } fn flush(&mut self) -> io::Result<()> { self.file.flush() } }
impl Read for NamedTempFile { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.file.read(b) } }
impl Seek for NamedTempFile { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.file.seek(p) } }

#[derive(Debug)]
pub struct PersistError { pub error: io::Error, pub file: NamedTempFile }
impl From<PersistError> for io::Error { fn from(e: PersistError) -> io::Error { e.error } }
impl fmt::Display for PersistError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "failed to persist temporary file: {}", self.error) } }
impl std::error::Error for PersistError {}

#[derive(Debug)]
pub struct TempDir { path: PathBuf, keep: bool }
impl TempDir {
    pub fn new() -> io::Result<TempDir> { Self::new_in(tmp()) }
    pub fn new_in<P: AsRef<Path>>(dir: P) -> io::Result<TempDir> { Builder::new().tempdir_in(dir) }
    pub fn path(&self) -> &Path { &self.path }
    pub fn into_path(mut self) -> PathBuf { self.keep = true; self.path.clone() }
    pub fn keep(self) -> PathBuf { self.into_path() }
    pub fn close(mut self) -> io::Result<()> { self.keep = true; fs::remove_dir_all(&self.path) }
}
impl AsRef<Path> for TempDir { fn as_ref(&self) -> &Path { &self.path } }
impl Drop for TempDir { fn drop(&mut self) { if !self.keep { let _ = fs::remove_dir_all(&self.path); } } }

#[derive(Clone, Debug)]
pub struct Builder<'a> { prefix: &'a str, suffix: &'a str }
impl<'a> Builder<'a> {
    pub fn new() -> Self { Builder { prefix: ".tmp", suffix: "" } }
    pub fn prefix(&mut self, p: &'a str) -> &mut Self { self.prefix = p; self }
    pub fn suffix(&mut self, s: &'a str) -> &mut Self { self.suffix = s; self }
    pub fn rand_bytes(&mut self, _: usize) -> &mut Self { self }
    pub fn tempfile(&self) -> io::Result<NamedTempFile> { self.tempfile_in(tmp()) }
    pub fn tempfile_in<P: AsRef<Path>>(&self, dir: P) -> io::Result<NamedTempFile> {
        let (file, path) = create_in(dir.as_ref(), self.prefix, self.suffix)?;
        Ok(NamedTempFile { file, path: TempPath { path, keep: false } })
    }
    pub fn tempdir(&self) -> io::Result<TempDir> { self.tempdir_in(tmp()) }
    pub fn tempdir_in<P: AsRef<Path>>(&self, dir: P) -> io::Result<TempDir> {
        let path = dir.as_ref().join(name(self.prefix, self.suffix));
        fs::create_dir(&path)?;
        Ok(TempDir { path, keep: false })
    }
}
pub fn tempfile() -> io::Result<File> { tempfile_in(tmp()) }
pub fn tempfile_in<P: AsRef<Path>>(dir: P) -> io::Result<File> { let (f, p) = create_in(dir.as_ref(), ".tmp", "")?; fs::remove_file(p)?; Ok(f) }
pub fn tempdir() -> io::Result<TempDir> { TempDir::new() }
pub fn tempdir_in<P: AsRef<Path>>(dir: P) -> io::Result<TempDir> { TempDir::new_in(dir) }
