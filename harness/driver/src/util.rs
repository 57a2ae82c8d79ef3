use serde_json::{json, Value};
use std::any::Any;
use std::ffi::OsString;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::str::FromStr;

use dir_signature::HashType;

/// latin-1 string -> bytes
pub fn l1(v: &Value) -> Vec<u8> {
    v.as_str().unwrap_or("").chars().map(|c| c as u32 as u8).collect()
}
pub fn to_l1(b: &[u8]) -> String { b.iter().map(|&c| c as char).collect() }
pub fn pathb(v: &Value) -> PathBuf { PathBuf::from(OsString::from_vec(l1(v))) }
pub fn path_l1(p: &Path) -> String { to_l1(p.as_os_str().as_bytes()) }
pub fn htype(v: &Value) -> HashType { HashType::from_str(v.as_str().unwrap()).unwrap() }
pub fn hex(b: &[u8]) -> String { b.iter().map(|c| format!("{:02x}", c)).collect() }

pub fn panic_msg(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else { "?".into() }
}
pub fn guarded<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(panic_msg)
}

/// content spec [size, seed, pattern length]
pub fn content(spec: &Value) -> Vec<u8> {
    let size = spec[0].as_u64().unwrap() as usize;
    let seed = spec[1].as_u64().unwrap();
    let pl = spec[2].as_u64().unwrap().max(1) as usize;
    let pat: Vec<u8> = (0..pl as u64).map(|i| ((seed * 31 + i * 7 + (i * i >> 3)) & 255) as u8).collect();
    let mut v = Vec::with_capacity(size);
    while v.len() < size {
        let n = pl.min(size - v.len());
        v.extend_from_slice(&pat[..n]);
    }
    v
}

/// blake3 (taken from the blake3 crate directly): for segments [[spec, off, len], ..] the digests of
/// each segment alone and of everything up to its end.
pub fn b3(rq: &Value) -> Value {
    let mut run = blake3::Hasher::new();
    let (mut own, mut cum) = (vec![], vec![]);
    let mut last: Option<(Value, Vec<u8>)> = None;
    for seg in rq["segs"].as_array().unwrap() {
        let data = if seg[0].is_string() { l1(&seg[0]) } else {
            if last.as_ref().map(|l| l.0 != seg[0]).unwrap_or(true) {
                last = Some((seg[0].clone(), content(&seg[0])));
            }
            let (a, n) = (seg[1].as_u64().unwrap() as usize, seg[2].as_u64().unwrap() as usize);
            last.as_ref().unwrap().1[a..a + n].to_vec()
        };
        run.update(&data);
        own.push(blake3::hash(&data).to_hex().to_string());
        cum.push(run.finalize().to_hex().to_string());
    }
    json!({"own": own, "cum": cum})
}

/// Reader with scripted behaviour.
/// spec: {"chunk": max bytes per read (0 = all), "intr": interrupt before every n-th read (0 = never),
///        "fail": byte position of an error (-1 = none), "once": the error happens only once}
pub struct RScript {
    pub data: Vec<u8>,
    pub pos: usize,
    chunk: usize,
    intr: usize,
    calls: usize,
    fail: i64,
    once: bool,
    panics: bool,             // rather than failing
    kind: i64,
    failed: bool,
    seek_fail: i64,
    seeks: i64,
    pub fired: bool,
}
impl RScript {
    pub fn new(data: Vec<u8>, s: &Value) -> RScript {
        RScript {
            data, pos: 0,
            chunk: s["chunk"].as_u64().unwrap_or(0) as usize,
            intr: s["intr"].as_u64().unwrap_or(0) as usize,
            calls: 0,
            fail: s["fail"].as_i64().unwrap_or(-1),
            once: s["once"].as_bool().unwrap_or(false),
            panics: s["panic"] == true,
            kind: (s["fail"].as_i64().unwrap_or(0) + s["chunk"].as_i64().unwrap_or(0)),
            failed: false,
            // true: every one fails; n: the nth one fails
            seek_fail: if s["seek_fail"] == true { -1 } else { s["seek_fail"].as_i64().unwrap_or(0) },
            seeks: 0,
            fired: false,
        }
    }
    fn avail(&mut self) -> io::Result<usize> {
        inside();
        self.calls += 1;
        if self.intr > 0 && self.calls % self.intr == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = self.data.len().saturating_sub(self.pos);
        if self.chunk > 0 { n = n.min(self.chunk); }
        if self.fail >= 0 && !(self.once && self.failed) {
            let f = self.fail as usize;
            if self.pos >= f && self.panics { panic!("reader"); }
            if self.pos >= f { self.failed = true; self.fired = true; return Err(error_at(self.kind)); }
            n = n.min(f - self.pos);
        }
        Ok(n)
    }
}
impl Read for RScript {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.avail()?.min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for RScript {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let n = self.avail()?;
        Ok(&self.data[self.pos..self.pos + n])
    }
    fn consume(&mut self, n: usize) { self.pos += n; }
}
impl Seek for RScript {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        if self.seek_fail == -1 || self.seek_fail == self.seeks { self.fired = true; return Err(error_at(self.kind)); }
        let p = match s {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.data.len() as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if p < 0 { return Err(io::ErrorKind::InvalidInput.into()); }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

/// Output with scripted behaviour: "acc": list of per-call behaviours, cycled (n > 0: accept at most n
/// bytes; 0: Ok(0); -1: Interrupted), "cut": accept that many bytes in total, then fail ("how":
/// "err" or "zero", "once": the next call is accepted again), "null": only count.
pub struct WScript {
    pub got: Vec<u8>,
    acc: Vec<i64>,
    i: usize,
    cut: i64,
    zero: bool,
    panics: bool,
    kind: i64,
    once: bool,
    pub fired: bool,
    pub lines: Option<std::sync::Arc<dyn Fn(usize) + Send + Sync>>,
    nl: usize,
    null: bool,
    pub total: u64,
}
/// errors of all kinds, by the place where they happen
pub fn error_at(n: i64) -> io::Error {
    use io::ErrorKind::*;
    let kinds = [Other, BrokenPipe, WouldBlock, UnexpectedEof, WriteZero, NotFound, PermissionDenied, InvalidData, TimedOut, InvalidInput,
                 ConnectionReset, ConnectionAborted, NotConnected, AlreadyExists, OutOfMemory, Unsupported, StorageFull, AddrInUse];
    // EPIPE, EIO, ENOSPC, EAGAIN, EFBIG, ENXIO, EDQUOT, ECONNRESET, EINVAL
    let raw = [32, 5, 28, 11, 27, 6, 122, 104, 22];
    let k = n.rem_euclid((kinds.len() + raw.len()) as i64) as usize;
    if k < kinds.len() { io::Error::new(kinds[k], "boom") } else { io::Error::from_raw_os_error(raw[k - kinds.len()]) }
}
impl WScript {
    pub fn new(s: &Value) -> WScript {
        WScript {
            got: vec![],
            acc: s["acc"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default(),
            i: 0,
            cut: s["cut"].as_i64().unwrap_or(-1),
            zero: s["how"] == "zero",
            panics: s["how"] == "panic",
            kind: (s["cut"].as_i64().unwrap_or(0) + s["acc"].as_array().map(|a| a.len() as i64).unwrap_or(0)),
            once: s["once"] == true,
            fired: false,
            lines: None,
            nl: 0,
            null: s["null"] == true,
            total: 0,
        }
    }
}
thread_local! {
    /// what is done while something is read or written, and how often there was occasion
    static INSIDE: std::cell::RefCell<(Option<Box<dyn FnMut()>>, usize)> = std::cell::RefCell::new((None, 0));
}
pub fn set_inside(f: Option<Box<dyn FnMut()>>) { INSIDE.with(|x| *x.borrow_mut() = (f, 0)); }
fn inside() {
    let f = INSIDE.with(|x| {
        let mut x = x.borrow_mut();
        if x.0.is_none() { return None; }
        x.1 += 1;
        if x.1 < 5 || [7, 9, 13, 20, 30, 50].contains(&x.1) || x.1 % 100 == 0 { x.0.take() } else { None }
    });
    if let Some(mut f) = f {
        f();
        INSIDE.with(|x| x.borrow_mut().0 = Some(f));
    }
}

impl Write for WScript {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        inside();
        if buf.is_empty() { return Ok(0); }
        let mut n = buf.len();
        if !self.acc.is_empty() {
            let a = self.acc[self.i % self.acc.len()];
            self.i += 1;
            if a == -1 { return Err(io::ErrorKind::Interrupted.into()); }
            if a == 0 { self.fired = true; return Ok(0); }
            n = n.min(a as usize);
        }
        if self.cut >= 0 {
            let left = (self.cut as usize).saturating_sub(self.got.len());
            if left == 0 && !(self.once && self.fired) {
                self.fired = true;
                if self.panics { panic!("output"); }
                return if self.zero { Ok(0) } else { Err(error_at(self.kind)) };
            }
            if left > 0 { n = n.min(left); }
        }
        self.total += n as u64;
        if self.null { return Ok(n); }
        self.got.extend_from_slice(&buf[..n]);
        let k = buf[..n].iter().filter(|&&c| c == b'\n').count();
        if k > 0 {
            self.nl += k;
            if let Some(ref f) = self.lines { f(self.nl); }
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
