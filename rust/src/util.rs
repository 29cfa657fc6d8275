use crate::Src;
use bytes::Bytes;
use lightyear_serde::reader::Reader;
use lightyear_serde::{SerializationError, ToBytes};
use no_std_io2::io;

pub const CAP: usize = 24;
/// Fixed-capacity sink implementing `Write` (hence `WriteInteger`).
pub struct Sink {
    pub buf: [u8; CAP],
    pub len: usize,
}
impl Sink {
    pub fn new() -> Self {
        Sink { buf: [0; CAP], len: 0 }
    }
    /// A reader over exactly the written bytes.
    pub fn reader(self) -> Reader {
        reader_of(self.buf, self.len)
    }
}
impl Sink {
    fn push(&mut self, src: &[u8]) {
        let n = src.len();
        assert!(self.len + n <= CAP, "sink overflow");
        // byte-wise stores for the integer widths: much cheaper for the model checker than a symbolic copy
        if n <= 8 {
            let mut i = 0;
            while i < n {
                self.buf[self.len + i] = src[i];
                i += 1;
            }
        } else {
            self.buf[self.len..self.len + n].copy_from_slice(src);
        }
        self.len += n;
    }
}
impl io::Write for Sink {
    fn write(&mut self, src: &[u8]) -> io::Result<usize> {
        self.push(src);
        Ok(src.len())
    }
    fn write_all(&mut self, src: &[u8]) -> io::Result<()> {
        self.push(src);
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn reader_of(buf: [u8; CAP], len: usize) -> Reader {
    let b: &'static [u8; CAP] = Box::leak(Box::new(buf));
    Reader::from(Bytes::from_static(&b[..len]))
}

/// encode must succeed; returns sink
pub fn enc<T: ToBytes>(v: &T) -> Sink {
    let mut w = Sink::new();
    match v.to_bytes(&mut w) {
        Ok(()) => {}
        Err(e) => {
            core::mem::forget(e);
            panic!("to_bytes failed");
        }
    }
    assert!(w.len == v.bytes_len(), "bytes_len differs from bytes written");
    w
}

/// forget errors (their drop glue is irrelevant and expensive for the model checker)
pub fn opt<T>(r: Result<T, SerializationError>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            core::mem::forget(e);
            None
        }
    }
}

/// Round trip with full consumption; `trail` extra bytes after the value must stay unread.
pub fn roundtrip<T: ToBytes>(v: &T) -> T {
    let w = enc(v);
    let n = w.len;
    let mut r = reader_of(w.buf, CAP);
    let got = match T::from_bytes(&mut r) {
        Ok(x) => x,
        Err(e) => {
            core::mem::forget(e);
            panic!("from_bytes failed on to_bytes output");
        }
    };
    assert!(r.position() == n as u64, "decoder consumed a different number of bytes than the encoder wrote");
    core::mem::forget(r);
    got
}

/// Every strict prefix of an encoding is rejected (no panic, no value).
pub fn truncated<T: ToBytes, S: Src>(s: &mut S, v: &T) {
    let w = enc(v);
    let k = s.range(0, CAP as u64 - 1) as usize;
    s.assume(k < w.len);
    let mut r = reader_of(w.buf, k);
    let res = T::from_bytes(&mut r);
    match res {
        Ok(x) => {
            core::mem::forget(x);
            panic!("decoder accepted a truncated encoding")
        }
        Err(e) => core::mem::forget(e),
    }
    core::mem::forget(r);
}

/// Native: remembers the largest single allocation requested by this thread.
#[cfg(not(kani))]
pub struct Track;
#[cfg(not(kani))]
thread_local! { static BIGGEST: core::cell::Cell<usize> = const { core::cell::Cell::new(0) }; }
#[cfg(not(kani))]
fn note(n: usize) { let _ = BIGGEST.try_with(|b| if n > b.get() { b.set(n) }); }
#[cfg(not(kani))]
unsafe impl std::alloc::GlobalAlloc for Track {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size()); unsafe { std::alloc::System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { note(l.size()); unsafe { std::alloc::System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { unsafe { std::alloc::System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { note(n); unsafe { std::alloc::System.realloc(p, l, n) } }
}
#[cfg(not(kani))]
#[global_allocator]
static TRACK: Track = Track;
/// largest single allocation requested by this thread while `f` runs
#[cfg(not(kani))]
pub fn biggest_alloc<R>(f: impl FnOnce() -> R) -> (R, usize) {
    BIGGEST.with(|b| b.set(0));
    let r = f();
    (r, BIGGEST.with(|b| b.get()))
}
