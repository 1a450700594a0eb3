//! Stand-in for minidl, a wrapper of dlopen and dlsym.
use std::ffi::{c_void, CString};
use std::fmt;
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

#[derive(Debug)]
pub struct Error(String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl std::error::Error for Error {}

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Copy)]
pub struct Library(*mut c_void);

impl Library {
    pub fn load(path: impl AsRef<Path>) -> Result<Self> {
        let path = CString::new(path.as_ref().as_os_str().as_bytes()).map_err(|e| Error(e.to_string()))?;
        let handle = unsafe { libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL) };
        if handle.is_null() {
            return Err(Error(format!("cannot load {path:?}")));
        }
        Ok(Self(handle))
    }

    /// # Safety
    /// The symbol must be of the given type; its name must end with a zero.
    pub unsafe fn sym<'a, T>(&self, name: impl AsRef<str>) -> Result<T>
    where
        T: 'a,
    {
        let name = name.as_ref();
        assert!(name.ends_with('\0') && std::mem::size_of::<T>() == std::mem::size_of::<*mut c_void>());
        let p = libc::dlsym(self.0, name.as_ptr().cast());
        if p.is_null() {
            return Err(Error(format!("no symbol {name:?}")));
        }
        Ok(std::mem::transmute_copy(&p))
    }
}
