//! A reader of plain ustar archives with the interface of the tar crate that the snapshot reader uses.
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::{self, Read};
use std::path::{Path, PathBuf};

pub struct Archive<R> {
    inner: RefCell<R>,
    // bytes of the current entry, with its padding, that are still to be read
    left: RefCell<(u64, u64)>,
}
impl<R: Read> Archive<R> {
    pub fn new(r: R) -> Self {
        Archive { inner: RefCell::new(r), left: RefCell::new((0, 0)) }
    }
    pub fn entries(&mut self) -> io::Result<Entries<'_, R>> {
        Ok(Entries { a: self, done: false })
    }
}
pub struct Entries<'a, R> {
    a: &'a Archive<R>,
    done: bool,
}
pub struct Entry<'a, R> {
    a: &'a Archive<R>,
    path: PathBuf,
    size: u64,
}
fn full(r: &mut impl Read, b: &mut [u8]) -> io::Result<bool> {
    let mut n = 0;
    while n < b.len() {
        match r.read(&mut b[n..])? {
            0 if n == 0 => return Ok(false),
            0 => return Err(io::ErrorKind::UnexpectedEof.into()),
            k => n += k,
        }
    }
    Ok(true)
}
impl<'a, R: Read> Iterator for Entries<'a, R> {
    type Item = io::Result<Entry<'a, R>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        let r = self.one();
        if !matches!(r, Ok(Some(_))) {
            self.done = true;
        }
        r.transpose()
    }
}
impl<'a, R: Read> Entries<'a, R> {
    fn one(&mut self) -> io::Result<Option<Entry<'a, R>>> {
        let mut inner = self.a.inner.borrow_mut();
        let mut left = self.a.left.borrow_mut();
        let skip = left.0 + left.1;
        if io::copy(&mut (&mut *inner).take(skip), &mut io::sink())? < skip {
            return Err(io::ErrorKind::UnexpectedEof.into());
        }
        let mut h = [0u8; 512];
        if !full(&mut *inner, &mut h)? || h.iter().all(|b| *b == 0) {
            return Ok(None);
        }
        let name: Vec<u8> = h[..100].iter().copied().take_while(|b| *b != 0).collect();
        let size = h[124..135].iter().fold(0u64, |n, b| n * 8 + (*b - b'0') as u64);
        *left = (size, (512 - size % 512) % 512);
        Ok(Some(Entry { a: self.a, path: PathBuf::from(String::from_utf8(name).unwrap()), size }))
    }
}
impl<'a, R: Read> Entry<'a, R> {
    pub fn path(&self) -> io::Result<Cow<'_, Path>> {
        Ok(Cow::Borrowed(&self.path))
    }
    pub fn size(&self) -> u64 {
        self.size
    }
}
impl<'a, R: Read> Read for Entry<'a, R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut left = self.a.left.borrow_mut();
        let k = (b.len() as u64).min(left.0) as usize;
        if k == 0 {
            return Ok(0);
        }
        let n = self.a.inner.borrow_mut().read(&mut b[..k])?;
        left.0 -= n as u64;
        Ok(n)
    }
}
