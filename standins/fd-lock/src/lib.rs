//! Stand-in for the part of fd-lock that scc-lib uses; like the original on Unix it locks with flock(2).
use std::io;
use std::ops::{Deref, DerefMut};
use std::os::fd::AsRawFd;

#[derive(Debug)]
pub struct RwLock<T: AsRawFd> {
    inner: T,
}

impl<T: AsRawFd> RwLock<T> {
    pub fn new(inner: T) -> Self {
        Self { inner }
    }

    pub fn read(&self) -> io::Result<RwLockReadGuard<'_, T>> {
        flock(&self.inner, libc::LOCK_SH)?;
        Ok(RwLockReadGuard { lock: self })
    }

    pub fn write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> {
        flock(&self.inner, libc::LOCK_EX)?;
        Ok(RwLockWriteGuard { lock: self })
    }

    pub fn try_write(&mut self) -> io::Result<RwLockWriteGuard<'_, T>> {
        flock(&self.inner, libc::LOCK_EX | libc::LOCK_NB)?;
        Ok(RwLockWriteGuard { lock: self })
    }

    pub fn into_inner(self) -> T {
        self.inner
    }
}

fn flock<T: AsRawFd>(file: &T, op: i32) -> io::Result<()> {
    loop {
        if unsafe { libc::flock(file.as_raw_fd(), op) } == 0 {
            return Ok(());
        }
        let err = io::Error::last_os_error();
        if err.kind() != io::ErrorKind::Interrupted {
            return Err(err);
        }
    }
}

#[derive(Debug)]
pub struct RwLockReadGuard<'a, T: AsRawFd> {
    lock: &'a RwLock<T>,
}

impl<T: AsRawFd> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.lock.inner
    }
}

impl<T: AsRawFd> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        flock(&self.lock.inner, libc::LOCK_UN).ok();
    }
}

#[derive(Debug)]
pub struct RwLockWriteGuard<'a, T: AsRawFd> {
    lock: &'a mut RwLock<T>,
}

impl<T: AsRawFd> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.lock.inner
    }
}

impl<T: AsRawFd> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.lock.inner
    }
}

impl<T: AsRawFd> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        flock(&self.lock.inner, libc::LOCK_UN).ok();
    }
}
