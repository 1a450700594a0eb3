//! Stand-in for normpath: scc-lib imports the trait everywhere and calls it on Windows only.
use std::io;
use std::path::{Path, PathBuf};

pub trait PathExt {
    fn normalize(&self) -> io::Result<PathBuf>;
}

impl PathExt for Path {
    fn normalize(&self) -> io::Result<PathBuf> {
        self.canonicalize()
    }
}
