use crate::mem;
use crate::util::*;
use dir_signature::v1::merge::{FileMergeBuilder, MergeError, MergedSignatures};
use dir_signature::v1::{Emitter, Entry, EntryKind, Hashes, ParseError, Parser};
use dir_signature::HashType;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::io::Read;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::str::FromStr;

fn hashes_v(h: &Hashes) -> (Vec<String>, bool) {
    let v: Vec<Vec<u8>> = h.iter().map(|x| x.to_vec()).collect();
    let mut ok = h.len() == v.len() && h.get(v.len()).is_none() && h.get(usize::MAX).is_none()
        && h.get(usize::MAX / 32).is_none() && h.get(usize::MAX / 32 + 1).is_none();
    for (i, x) in v.iter().enumerate() {
        ok = ok && h.get(i) == Some(&x[..]);
    }
    (v.iter().map(|x| hex(x)).collect(), ok)
}

fn entry_v(e: &Entry) -> Value {
    let v = match e {
        Entry::Dir(p) => json!(["d", path_l1(p)]),
        Entry::File { path, exe, size, hashes } => {
            let (h, ok) = hashes_v(hashes);
            json!(["f", path_l1(path), exe, size.to_string(), h, ok, hashes.block_size().to_string(), hashes.hash_type().to_string()])
        }
        Entry::Link(p, d) => json!(["l", path_l1(p), path_l1(d)]),
    };
    // the accessors must agree with the variant
    let k = e.kind();
    let same = match (&k, e) {
        (EntryKind::Dir(p), Entry::Dir(q)) => p.as_os_str() == q.as_os_str(),
        (EntryKind::File(p), Entry::File { path, .. }) => p.as_os_str() == path.as_os_str(),
        (EntryKind::File(p), Entry::Link(q, _)) => p.as_os_str() == q.as_os_str(),
        _ => false,
    } && k.path().as_os_str() == e.path().as_os_str();
    if same { v } else { json!(["inconsistent", v]) }
}

fn res_v(r: &Option<Result<Entry, ParseError>>) -> Value {
    match r {
        None => json!(["none"]),
        Some(Ok(e)) => entry_v(e),
        Some(Err(e)) => json!(["e", e.to_string()]),
    }
}

pub fn kind(v: &Value) -> EntryKind<PathBuf> {
    let p = pathb(&v[1]);
    if v[0] == "d" { EntryKind::Dir(p) } else { EntryKind::File(p) }
}

/// ops: ["n"] next; ["a", "d"|"f", path] advance; ["all", max] next until none;
/// ["i"] a new iterator of the same parser; ["r"] rewind the reader and open again
pub fn parse(rq: &Value) -> Value {
    let mut reader = RScript::new(l1(&rq["data"]), &rq["reader"]);
    let base = mem::start();
    let ops = rq["ops"].as_array().unwrap();
    let mut out = vec![];
    let mut open = json!(null);
    let r = guarded(|| {
        let mut i = 0;
        'open: loop {
            let mut parser = match Parser::new(reader) {
                Ok(p) => p,
                Err(e) => { open = json!(["e", e.to_string()]); return None; }
            };
            let h = parser.get_header();
            open = json!(["ok", h.get_version(), h.get_hash_type().to_string(), h.get_block_size().to_string()]);
            loop {
                let mut rewind = false;
                {
                    let mut it = parser.iter();
                    let mut again = false;
                    while i < ops.len() {
                        let o = &ops[i];
                        i += 1;
                        match o[0].as_str().unwrap() {
                            "n" => out.push(res_v(&it.next())),
                            "a" => out.push(res_v(&it.advance(&kind(&json!([o[1], o[2]]))))),
                            "all" => {
                                let max = o[1].as_u64().unwrap();
                                let mut k = 0;
                                loop {
                                    let x = it.next();
                                    out.push(res_v(&x));
                                    k += 1;
                                    if x.is_none() { break; }
                                    if k >= max { out.push(json!(["endless"])); break; }
                                }
                            }
                            "count" => {
                                // only count, to keep the harness' own memory out of the measurement
                                let (mut k, mut e) = (0u64, 0u64);
                                for x in &mut it { k += 1; if x.is_err() { e += 1; } }
                                out.push(json!(["count", k, e]));
                            }
                            "i" => { again = true; break; }
                            "r" => { rewind = true; break; }
                            _ => panic!("bad op"),
                        }
                    }
                    if !again && !rewind { return Some(()); }
                }
                if rewind {
                    reader = parser.into_reader();
                    reader.pos = 0;
                    continue 'open;
                }
            }
        }
    });
    let peak = mem::peak_since(base);
    match r {
        Ok(_) => {}
        Err(m) => out.push(json!(["panic", m])),
    }
    json!({"open": open, "res": out, "peak": peak, "cpu": mem::cpu()})
}

fn merr(e: &MergeError) -> Value {
    match e {
        MergeError::Io(..) => json!(["io"]),
        MergeError::Parse(e) => json!(["parse", e.to_string()]),
        MergeError::HashTypesMismatch(v) => json!(["hash", v.iter().map(|x| x.to_string()).collect::<Vec<_>>()]),
        MergeError::BlockSizesMismatch(v) => json!(["block", v.iter().map(|x| x.to_string()).collect::<Vec<_>>()]),
    }
}

fn run_merge<R: std::io::BufRead>(m: &mut MergedSignatures<PathBuf, R>, ops: &[Value], out: &mut Vec<Value>) {
    let mut it = m.iter();
    let grp = |g: &[(&PathBuf, Result<Entry, ParseError>)]| -> Value {
        json!(["g", g.iter().map(|(k, e)| json!([path_l1(k), match e {
            Ok(e) => entry_v(e),
            Err(e) => json!(["e", e.to_string()]),
        }])).collect::<Vec<_>>()])
    };
    for o in ops {
        match o[0].as_str().unwrap() {
            "n" => out.push(match it.next() { None => json!(["none"]), Some(g) => grp(&g) }),
            "a" => out.push(grp(&it.advance(&kind(&json!([o[1], o[2]]))))),
            "all" => {
                let max = o[1].as_u64().unwrap();
                let mut k = 0;
                loop {
                    let x = it.next();
                    k += 1;
                    match x {
                        None => { out.push(json!(["none"])); break; }
                        Some(g) => out.push(grp(&g)),
                    }
                    if k >= max { out.push(json!(["endless"])); break; }
                }
            }
            _ => panic!("bad op"),
        }
    }
}

/// inputs: [{"data", "reader", "key"}]
pub fn merge(rq: &Value) -> Value {
    let base = mem::start();
    let mut out = vec![];
    let mut open = json!(null);
    let r = guarded(|| {
        let mut parsers = vec![];
        for inp in rq["inputs"].as_array().unwrap() {
            match Parser::new(RScript::new(l1(&inp["data"]), &inp["reader"])) {
                Ok(p) => parsers.push((pathb(&inp["key"]), p)),
                Err(e) => { open = json!(["e", e.to_string()]); return; }
            }
        }
        let mut m = match MergedSignatures::new(parsers) {
            Ok(m) => m,
            Err(e) => { open = merr(&e); return; }
        };
        open = json!(["ok"]);
        run_merge(&mut m, rq["ops"].as_array().unwrap(), &mut out);
    });
    let peak = mem::peak_since(base);
    if let Err(m) = r { out.push(json!(["panic", m])); }
    json!({"open": open, "res": out, "peak": peak, "cpu": mem::cpu()})
}

/// files: [[key, path], ..] merged by path
pub fn file_merge(rq: &Value) -> Value {
    let mut out = vec![];
    let mut open = json!(null);
    let r = guarded(|| {
        let mut b = FileMergeBuilder::new();
        for f in rq["files"].as_array().unwrap() {
            b.add(pathb(&f[0]), pathb(&f[1]));
        }
        let mut m = match b.finalize() {
            Ok(m) => m,
            Err(e) => { open = merr(&e); return; }
        };
        open = json!(["ok"]);
        run_merge(&mut m, rq["ops"].as_array().unwrap(), &mut out);
    });
    if let Err(m) = r { out.push(json!(["panic", m])); }
    json!({"open": open, "res": out})
}

fn ord(o: Ordering) -> i32 { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }

pub fn cmp(rq: &Value) -> Value {
    let ks: Vec<EntryKind<PathBuf>> = rq["kinds"].as_array().unwrap().iter().map(kind).collect();
    let r = guarded(|| {
        let mut rows = vec![];
        for a in &ks {
            let mut row = vec![];
            for b in &ks {
                let c = a.cmp(b);
                let ok = a.partial_cmp(b) == Some(c)
                    && a.as_ref().cmp(&b.as_ref()) == c
                    && (a < b) == (c == Ordering::Less)
                    && a.cloned().cmp(&b.cloned()) == c
                    && (a == b) == (a.as_ref() == b.as_ref());
                row.push(json!([ord(c), a == b, ok]));
            }
            rows.push(json!(row));
        }
        rows
    });
    match r { Ok(rows) => json!({"m": rows}), Err(m) => json!({"panic": m}) }
}

/// {"hash", "bs", "data"|"spec", "reader"}
pub fn hash_file(rq: &Value) -> Value {
    let data = if rq["spec"].is_null() { l1(&rq["data"]) } else { content(&rq["spec"]) };
    let bs: u64 = rq["bs"].as_str().unwrap().parse().unwrap();
    let ht = htype(&rq["hash"]);
    let mut r = RScript::new(data, &rq["reader"]);
    let v = match guarded(|| Hashes::hash_file(ht, bs, &mut r)) {
        Ok(Ok((size, h))) => {
            let (v, ok) = hashes_v(&h);
            json!(["ok", size.to_string(), v, ok, h.block_size().to_string(), h.hash_type().to_string()])
        }
        Ok(Err(e)) => json!(["e", e.to_string()]),
        Err(m) => json!(["panic", m]),
    };
    json!({"res": v, "fired": r.fired})
}

/// {"hash", "bs", "zeros": length}: memory needed to hash and to check a stream of zeros
pub fn hash_zeros(rq: &Value) -> Value {
    let bs: u64 = rq["bs"].as_str().unwrap().parse().unwrap();
    let n = rq["zeros"].as_u64().unwrap();
    let ht = htype(&rq["hash"]);
    let m0 = mem::start();
    let h = guarded(|| Hashes::hash_file(ht, bs, std::io::repeat(0).take(n)));
    let p1 = mem::peak_since(m0);
    let c1 = mem::cpu();
    let m1 = mem::start();
    let (k, c) = match h {
        Ok(Ok((size, h))) => (json!([size.to_string(), h.len()]), match guarded(|| h.check_file(std::io::repeat(0).take(n))) {
            Ok(Ok(b)) => json!(b),
            Ok(Err(e)) => json!(e.to_string()),
            Err(m) => json!(["panic", m]),
        }),
        Ok(Err(e)) => (json!(["e", e.to_string()]), json!(null)),
        Err(m) => (json!(["panic", m]), json!(null)),
    };
    let p2 = mem::peak_since(m1);
    json!({"hash": k, "check": c, "peaks": [p1, p2], "cpus": [c1, mem::cpu()]})
}

/// {"src": {"hash","bs","data"|"spec"} or {"idx": index bytes, "n": file number}, "with": [{"data"|"spec","reader"}]}
pub fn check_file(rq: &Value) -> Value {
    let src = &rq["src"];
    let hs = guarded(|| -> Result<Hashes, String> {
        if src["idx"].is_string() {
            let mut p = Parser::new(RScript::new(l1(&src["idx"]), &json!({}))).map_err(|e| e.to_string())?;
            let n = src["n"].as_u64().unwrap();
            let mut k = 0;
            for e in p.iter() {
                if let Entry::File { hashes, .. } = e.map_err(|e| e.to_string())? {
                    if k == n { return Ok(hashes); }
                    k += 1;
                }
            }
            Err("no such file".into())
        } else {
            let data = if src["spec"].is_null() { l1(&src["data"]) } else { content(&src["spec"]) };
            let bs: u64 = src["bs"].as_str().unwrap().parse().unwrap();
            Hashes::hash_file(htype(&src["hash"]), bs, &data[..]).map(|x| x.1).map_err(|e| e.to_string())
        }
    });
    let h = match hs {
        Ok(Ok(h)) => h,
        Ok(Err(e)) => return json!({"src": ["e", e]}),
        Err(m) => return json!({"src": ["panic", m]}),
    };
    let res: Vec<Value> = rq["with"].as_array().unwrap().iter().map(|w| {
        let data = if w["spec"].is_null() { l1(&w["data"]) } else { content(&w["spec"]) };
        let mut r = RScript::new(data, &w["reader"]);
        let v = match guarded(|| h.check_file(&mut r)) {
            Ok(Ok(b)) => json!(["ok", b]),
            Ok(Err(e)) => json!(["e", e.to_string()]),
            Err(m) => json!(["panic", m]),
        };
        json!({"res": v, "fired": r.fired})
    }).collect();
    json!({"src": ["ok", hashes_v(&h).0], "res": res})
}

/// {"hash","bs","cmds":[["d",path],["f",name,exe,size,{"data"|"spec"}],["l",name,dest]],"sink"} or
/// {"idx": index bytes to parse and re-emit, "sink"}
pub fn emit(rq: &Value) -> Value {
    let mut sink = WScript::new(&rq["sink"]);
    let mut log: Vec<Value> = vec![];
    let r = guarded(|| -> Result<(), String> {
        let ioe = |e: std::io::Error| format!("io: {}", e);
        if rq["idx"].is_string() {
            let mut p = Parser::new(RScript::new(l1(&rq["idx"]), &json!({}))).map_err(|e| format!("parse: {}", e))?;
            let h = p.get_header();
            let mut em = Emitter::new(h.get_hash_type(), h.get_block_size(), &mut sink).map_err(ioe)?;
            for e in p.iter() {
                match e.map_err(|e| format!("parse: {}", e))? {
                    Entry::Dir(p) => em.start_dir(&p).map_err(ioe)?,
                    Entry::File { path, exe, size, hashes } =>
                        em.add_file(path.file_name().unwrap(), exe, size, &hashes).map_err(ioe)?,
                    Entry::Link(path, dest) =>
                        em.add_symlink(path.file_name().unwrap(), &dest).map_err(ioe)?,
                }
            }
            em.finish().map_err(ioe)?;
        } else {
            let ht = htype(&rq["hash"]);
            let bs: u64 = rq["bs"].as_str().unwrap().parse().unwrap();
            let mut em = Emitter::new(ht, bs, &mut sink).map_err(ioe)?;
            for c in rq["cmds"].as_array().unwrap() {
                match c[0].as_str().unwrap() {
                    "d" => em.start_dir(&pathb(&c[1])).map_err(ioe)?,
                    "f" => {
                        let data = if c[4]["spec"].is_null() { l1(&c[4]["data"]) } else { content(&c[4]["spec"]) };
                        let (size, h) = Hashes::hash_file(ht, bs, &data[..]).map_err(ioe)?;
                        let size = c[3].as_str().map(|x| x.parse::<u64>().unwrap()).unwrap_or(size);
                        log.push(json!([size.to_string(), hashes_v(&h).0]));
                        em.add_file(pathb(&c[1]).as_os_str(), c[2].as_bool().unwrap(), size, &h).map_err(ioe)?
                    }
                    "l" => em.add_symlink(pathb(&c[1]).as_os_str(), &pathb(&c[2])).map_err(ioe)?,
                    _ => panic!("bad cmd"),
                }
            }
            em.finish().map_err(ioe)?;
        }
        Ok(())
    });
    let res = match r {
        Ok(Ok(())) => json!(["ok"]),
        Ok(Err(e)) => json!(["e", e]),
        Err(m) => json!(["panic", m]),
    };
    json!({"res": res, "out": to_l1(&sink.got), "fired": sink.fired, "log": log})
}

pub fn get_hash(rq: &Value) -> Value {
    let base = mem::start();
    let mut r = RScript::new(l1(&rq["data"]), &rq["reader"]);
    let v = match guarded(|| dir_signature::get_hash(&mut r)) {
        Ok(Ok(h)) => json!(["ok", hex(&h)]),
        Ok(Err(e)) => json!(["e", e.to_string()]),
        Err(m) => json!(["panic", m]),
    };
    json!({"res": v, "fired": r.fired, "peak": mem::peak_since(base)})
}

pub fn hash_type(rq: &Value) -> Value {
    match HashType::from_str(rq["name"].as_str().unwrap()) {
        Ok(h) => json!(["ok", h.to_string(), h.output_bytes()]),
        Err(e) => json!(["e", e.to_string()]),
    }
}

/// An index of any size that is nowhere stored: n lines of 200 bytes, every 100th a directory.
struct Big { n: u64, pos: u64, bad: bool, head: Vec<u8>, foot: Vec<u8>, hex: String }

/// bytes handed out by all of them
static GIVEN: AtomicU64 = AtomicU64::new(0);

const LINE: u64 = 200;

impl Big {
    fn new(n: u64) -> Big {
        Big { n, pos: 0, bad: false, head: b"DIRSIGNATURE.v1 sha512/256 block_size=32768\n".to_vec(), foot: [&[b'0'; 64][..], b"\n"].concat(), hex: "ab".repeat(32) }
    }
    fn name(i: u64) -> String { format!("{:08}", i) }
    fn kind(i: u64) -> EntryKind<PathBuf> {
        let d = format!("/d{}{}", Big::name(i / 100), "x".repeat(LINE as usize - 11));
        if i % 100 == 0 { EntryKind::Dir(PathBuf::from(d)) } else { EntryKind::File(PathBuf::from(format!("{}/{}", d, Big::file(i)))) }
    }
    fn file(i: u64) -> String { format!("f{}{}", Big::name(i), "y".repeat(LINE as usize - 17 - 64)) }
    fn line(&self, i: u64) -> Vec<u8> {
        let l = if self.bad && i % 2 == 1 { format!("  {} f 5 {}\n", Big::file(i), "?".repeat(64)) } else if i % 100 == 0 { format!("/d{}{}\n", Big::name(i / 100), "x".repeat(LINE as usize - 11)) }
            else { format!("  {} f 5 {}\n", Big::file(i), self.hex) };
        assert_eq!(l.len() as u64, LINE);
        l.into_bytes()
    }
    fn len(&self) -> u64 { self.head.len() as u64 + self.n * LINE + self.foot.len() as u64 }
}

impl std::io::Read for Big {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut k = 0;
        let h = self.head.len() as u64;
        while k < buf.len() && self.pos < self.len() {
            let (piece, at) = if self.pos < h { (self.head.clone(), self.pos) }
                else if self.pos < h + self.n * LINE { (self.line((self.pos - h) / LINE), (self.pos - h) % LINE) }
                else { (self.foot.clone(), self.pos - h - self.n * LINE) };
            let piece = &piece[at as usize..];
            let m = piece.len().min(buf.len() - k);
            buf[k..k + m].copy_from_slice(&piece[..m]);
            k += m;
            self.pos += m as u64;
        }
        GIVEN.fetch_add(k as u64, Relaxed);
        Ok(k)
    }
}

impl std::io::Seek for Big {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        use std::io::SeekFrom::*;
        let q = match p { Start(x) => x as i64, End(x) => self.len() as i64 + x, Current(x) => self.pos as i64 + x };
        if q < 0 { return Err(std::io::ErrorKind::InvalidInput.into()); }
        self.pos = q as u64;
        Ok(self.pos)
    }
}

/// {"what", "n"}: memory needed with an index of n lines
pub fn big(rq: &Value) -> Value {
    let n = rq["n"].as_u64().unwrap();
    let times = rq["m"].as_u64().unwrap_or(10);
    let open = || Parser::new(std::io::BufReader::new(Big { bad: rq["bad"] == true, ..Big::new(n) })).unwrap();
    GIVEN.store(0, Relaxed);
    let base = mem::start();
    let r = guarded(|| match rq["what"].as_str().unwrap() {
        "iterate" => open().iter().filter(|e| e.is_ok()).count() as u64,
        "few" => open().iter().take(times as usize).filter(|e| e.is_ok()).count() as u64,
        "advance" => {
            let mut p = open();
            let mut it = p.iter();
            (1..=times).filter(|k| matches!(it.advance(&Big::kind(n * k / (times + 1))), Some(Ok(_)))).count() as u64
        }
        // over and over to what lies behind
        "back" => {
            let mut p = open();
            let mut it = p.iter();
            it.advance(&Big::kind(n / 2));
            (1..=times).filter(|k| it.advance(&Big::kind(n / 2 * k / (times + 1))).is_none()).count() as u64
        }
        "merge" | "merge-advance" => {
            let ps: Vec<_> = (0..rq["k"].as_u64().unwrap_or(5)).map(|i| (PathBuf::from(i.to_string()), open())).collect();
            let mut m = match MergedSignatures::new(ps) { Ok(m) => m, Err(_) => panic!("merge") };
            let mut it = m.iter();
            let mut c = 0;
            if rq["what"] == "merge" {
                while let Some(g) = it.next() { c += g.len() as u64; }
            } else {
                for k in 1..=times { c += it.advance(&Big::kind(n * k / (times + 1))).len() as u64; }
            }
            c
        }
        "hash" => dir_signature::get_hash(&mut Big::new(n)).unwrap().len() as u64,
        "emit" => {
            let mut null = Null(0);
            let mut e = Emitter::new(HashType::sha512_256(), 32768, &mut null).unwrap();
            let h = Hashes::hash_file(HashType::sha512_256(), 32768, &b"hello"[..]).unwrap().1;
            let mut c = 0;
            for i in 0..n {
                match Big::kind(i) {
                    EntryKind::Dir(p) => e.start_dir(&p).unwrap(),
                    EntryKind::File(_) => e.add_file(std::ffi::OsStr::new(&Big::file(i)), false, 5, &h).unwrap(),
                }
                c += 1;
            }
            e.finish().unwrap();
            c
        }
        _ => panic!("bad op"),
    });
    let peak = mem::peak_since(base);
    json!({"n": match r { Ok(n) => json!(n), Err(m) => json!(["panic", m]) }, "peak": peak, "cpu": mem::cpu(), "given": GIVEN.load(Relaxed)})
}

struct Null(u64);
impl std::io::Write for Null {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len() as u64; Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
