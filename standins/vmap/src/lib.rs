//! Stand-in for the part of vmap that redscript-cli and scc use; the file is read instead of being mapped.
use std::io;
use std::path::Path;

pub struct Map(Vec<u8>);
pub struct Options;
impl Map {
    pub fn with_options() -> Options {
        Options
    }
}
impl Options {
    pub fn open(&self, path: impl AsRef<Path>) -> io::Result<(Map, std::fs::File)> {
        let data = std::fs::read(&path)?;
        if data.is_empty() {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "empty file"));
        }
        Ok((Map(data), std::fs::File::open(path)?))
    }
}
impl AsRef<[u8]> for Map {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl std::ops::Deref for Map {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
