use crate::mem;
use crate::util::*;
use dir_signature::{v1, Error, ScannerConfig};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::ffi::CStr;
use std::io::Write;
use std::fs;
use std::os::raw::{c_char, c_int, c_long};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::io::AsRawFd;
use std::os::unix::fs::{MetadataExt, symlink, PermissionsExt};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, LazyLock, Mutex};
use std::time::{Duration, Instant};

const OP_OPEN: c_int = 1;
const OP_READ: c_int = 2;
const OP_DIRINIT: c_int = 6;

type Hook = extern "C" fn(c_int, *const c_char, c_long) -> c_int;

fn set_hook(h: Option<Hook>) -> bool {
    unsafe {
        let s = libc::dlsym(libc::RTLD_DEFAULT, b"dsv_set_hook\0".as_ptr() as *const c_char);
        if s.is_null() { return false; }
        let f: extern "C" fn(Option<Hook>) = std::mem::transmute(s);
        f(h);
        true
    }
}

/// what happens to the tree just before a certain call
struct Change { op: c_int, path: Vec<u8>, nth: u64, seen: u64, done: Vec<Value> }

struct Fault { op: c_int, path: Vec<u8>, nth: u64, ret: c_int, seen: u64, fired: u64 }

#[derive(Default)]
struct Ctl {
    root: Vec<u8>,            // scratch prefix; other paths are left alone
    perm: Option<u64>,        // deliver directory entries in an order chosen by this seed
    hide: bool,               // no entry types from readdir
    chunk: u64,               // cap on bytes per read
    faults: Vec<Fault>,
    changes: Vec<Change>,
    changed: Vec<usize>,
    delay: Option<u64>,       // random delays, by seed
    rng: u64,
    log: bool,
    events: Vec<Value>,
    gates: HashSet<Vec<u8>>,  // closed gates: opening such a file waits
    started: Vec<Vec<u8>>,
    lines: usize,
    nreads: u64,
    slow: u64,                // microseconds every call takes
    work: Option<HashMap<Vec<u8>, [u64; 8]>>, // calls per path and kind
}

struct Shared { m: Mutex<Ctl>, cv: Condvar }

static COUNTED: AtomicUsize = AtomicUsize::new(0);
static SH: LazyLock<Shared> = LazyLock::new(|| Shared { m: Mutex::new(Ctl::default()), cv: Condvar::new() });

extern "C" fn hook(op: c_int, path: *const c_char, _arg: c_long) -> c_int {
    let p = unsafe { CStr::from_ptr(path) }.to_bytes();
    let mut ret = 0;
    let mut sleep = 0;
    {
        let mut c = SH.m.lock().unwrap();
        if c.root.is_empty() || !p.starts_with(&c.root) { return 0; }
        let rel = p[c.root.len()..].to_vec();
        if let Some(ref mut w) = c.work {
            w.entry(rel.clone()).or_insert([0; 8])[op as usize & 7] += 1;
            if op == OP_READ { unsafe { std::mem::transmute::<_, extern "C" fn()>(COUNTED.load(Ordering::Relaxed))() } }
        }
        for f in c.faults.iter_mut() {
            if f.op == op && f.path == rel {
                f.seen += 1;
                if f.nth == 0 || f.nth == f.seen { f.fired += 1; ret = f.ret; break; }
            }
        }
        let mut todo = vec![];
        for (i, x) in c.changes.iter_mut().enumerate() {
            if x.op == op && x.path == rel {
                x.seen += 1;
                if x.seen == x.nth { todo.push((i, x.done.clone())); }
            }
        }
        for (i, x) in todo {
            let base = Path::new(std::ffi::OsStr::from_bytes(&c.root)).to_path_buf();
            for y in &x { change(&base, y); }
            c.changed.push(i);
        }
        if op == OP_DIRINIT && ret == 0 {
            if let Some(s) = c.perm {
                let mut h = s ^ 0x9E3779B97F4A7C15;
                for &b in &rel { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
                ret |= 1 | (((h & 0x0fff_ffff) as c_int) << 2);
            }
            if c.hide { ret |= 2; }
            return ret;
        }
        if op == OP_READ { c.nreads += 1; if ret == 0 && c.chunk > 0 { ret = -(c.chunk as c_int); } }
        if op == OP_OPEN {
            if c.log { let v = json!(["open", to_l1(&rel)]); c.events.push(v); }
            if c.gates.contains(&rel) {
                c.started.push(rel.clone());
                SH.cv.notify_all();
                while c.gates.contains(&rel) { c = SH.cv.wait(c).unwrap(); }
            }
        }
        if let Some(s) = c.delay {
            c.rng = c.rng.wrapping_mul(6364136223846793005).wrapping_add(s | 1);
            let r = (c.rng >> 33) % 100;
            if r < 30 { sleep = r * 8; } else if r > 97 { sleep = 2500; }
        }
        sleep += c.slow;
    }
    if sleep > 0 { std::thread::sleep(Duration::from_micros(sleep)); }
    ret
}

/// nodes: {"n": name, "t": "d"|"f"|"s"|"p"(fifo)|"u"(socket)|"h"(hard link), ...}
fn mktree(dir: &Path, nodes: &Value) {
    // by descriptor: trees may be deeper than a path may be long
    let fd = fs::File::open(dir).unwrap();
    let dir = &Path::new("/proc/self/fd").join(fd.as_raw_fd().to_string());
    for n in nodes.as_array().unwrap() {
        let p = dir.join(pathb(&n["n"]));
        match n["t"].as_str().unwrap() {
            "d" => {
                fs::create_dir(&p).unwrap();
                mktree(&p, &n["c"]);
                if let Some(m) = n["m"].as_u64() {
                    fs::set_permissions(&p, fs::Permissions::from_mode(m as u32)).unwrap();
                }
            }
            "f" => {
                if n["sparse"] == true {
                    fs::File::create(&p).unwrap().set_len(n["z"][0].as_u64().unwrap()).unwrap();
                } else {
                    fs::write(&p, content(&n["z"])).unwrap();
                }
                let m = n["m"].as_u64().unwrap_or(0o644);
                fs::set_permissions(&p, fs::Permissions::from_mode(m as u32)).unwrap();
                if let Some(t) = n["mt"].as_i64() {
                    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                    let ts = [libc::timespec { tv_sec: t, tv_nsec: 5 }; 2];
                    unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), 0); }
                }
            }
            "s" => symlink(pathb(&n["l"]), &p).unwrap(),
            "h" => fs::hard_link(dir.join(pathb(&n["l"])), &p).unwrap(),
            "p" => unsafe {
                let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                assert_eq!(libc::mkfifo(c.as_ptr(), 0o600), 0);
            },
            "u" => { // AF_UNIX socket node; bind() has a short path limit, so bind relative
                let s = unsafe { libc::socket(libc::AF_UNIX, libc::SOCK_STREAM, 0) };
                let old = std::env::current_dir().unwrap();
                std::env::set_current_dir(dir).unwrap();
                let name = l1(&n["n"]);
                unsafe {
                    let mut a: libc::sockaddr_un = std::mem::zeroed();
                    a.sun_family = libc::AF_UNIX as u16;
                    for (i, b) in name.iter().enumerate().take(100) { a.sun_path[i] = *b as c_char; }
                    libc::bind(s, &a as *const _ as *const libc::sockaddr, std::mem::size_of_val(&a) as u32);
                    libc::close(s);
                }
                std::env::set_current_dir(old).unwrap();
            }
            _ => panic!("bad node"),
        }
    }
}

/// whether a symbolic link leads there
fn astray(base: &Path, p: &Path) -> bool {
    p.ancestors().skip(1).take_while(|a| *a != base)
        .any(|a| fs::symlink_metadata(a).map(|m| m.file_type().is_symlink()).unwrap_or(false))
}

fn change(base: &Path, x: &Value) {
    let p = base.join(pathb(&x[1]));
    if astray(base, &p) || x[0] == "mv" && astray(base, &base.join(pathb(&x[2]))) { return; }
    let r = match x[0].as_str().unwrap() {
        "rm" => fs::remove_file(&p),
        "rmtree" => fs::remove_dir_all(&p),
        "mv" => fs::rename(&p, base.join(pathb(&x[2]))),
        "symlink" => symlink(pathb(&x[2]), &p),
        "mkdir" => fs::create_dir(&p),
        "write" => fs::OpenOptions::new().write(true).create_new(true).open(&p).and_then(|mut f| f.write_all(&content(&x[2]))),
        "trunc" | "chmod" if fs::symlink_metadata(&p).map(|m| m.file_type().is_symlink()).unwrap_or(false) => Ok(()),
        "trunc" => fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_len(x[2].as_u64().unwrap())),
        "chmod" => fs::set_permissions(&p, fs::Permissions::from_mode(x[2].as_u64().unwrap() as u32)),
        _ => panic!("bad change"),
    };
    if let Err(e) = r { eprintln!("change {:?}: {}", x, e); }
}

pub fn mktree_op(rq: &Value) -> Value {
    let p = pathb(&rq["path"]);
    fs::create_dir(&p).unwrap();
    mktree(&p, &rq["nodes"]);
    json!("ok")
}

fn res_s(r: Result<Result<(), Error>, String>) -> Value {
    match r {
        Ok(Ok(())) => json!(["ok"]),
        Ok(Err(e)) => {
            let k = match e {
                Error::WriteError(..) => "Write",
                Error::OpenDir(..) => "OpenDir",
                Error::ListDir(..) => "ListDir",
                Error::ReadFile(..) => "ReadFile",
                Error::NoRootDirectory => "NoRoot",
                _ => "Other",
            };
            json!(["e", k, e.to_string()])
        }
        Err(m) => json!(["panic", m]),
    }
}

/// a chain of directories (names of any length, any number of them), with nodes at its end
fn mkwrapped(dir: &Path, wrap: &[Value], nodes: &Value) {
    match wrap.split_first() {
        None => mktree(dir, nodes),
        Some((w, rest)) => {
            let fd = fs::File::open(dir).unwrap();
            let p = Path::new("/proc/self/fd").join(fd.as_raw_fd().to_string()).join(pathb(w));
            fs::create_dir(&p).unwrap();
            mkwrapped(&p, rest, nodes);
        }
    }
}

/// "r0", "r1", ... below base, and links "l0", "l1", ... to them
fn mkroots(rq: &Value, base: &Path) {
    fs::create_dir(base).unwrap();
    let none = vec![];
    for (i, r) in rq["roots"].as_array().unwrap().iter().enumerate() {
        let p = base.join(pathb(&r[0]));
        fs::create_dir(&p).unwrap();
        mkwrapped(&p, rq["wrap"].as_array().unwrap_or(&none), &r[1]);
        if rq["links"] == true { symlink(pathb(&r[0]), base.join(format!("l{}", i))).unwrap(); }
    }
}

/// ["hash", name], ["threads", n], ["auto"], ["queue", n], ["progress"], ["dir", name]
fn call(cfg: &mut ScannerConfig, x: &Value, base: &Path) -> bool {
    let n = x[1].as_u64().unwrap_or(0) as usize;
    match x[0].as_str().unwrap() {
        "hash" => { cfg.hash(htype(&x[1])); }
        "threads" => { cfg.threads(n); }
        "auto" => { cfg.auto_threads(); }
        "queue" => { cfg.queue_size(n); }
        "progress" => { cfg.print_progress(); }
        "dir" => { cfg.add_dir(base.join(pathb(&x[1])), "/"); }
        _ => return false,
    }
    true
}

/// "cwd" of a run: its directories are given relative to this one
fn config(run: &Value, base: &Path) -> ScannerConfig {
    let base = match run["cwd"].as_str() {
        Some(d) => { std::env::set_current_dir(base.join(d)).unwrap(); Path::new("") }
        None => base,
    };
    let mut cfg = ScannerConfig::new();
    // call by call
    if let Some(xs) = run["calls"].as_array() {
        for x in xs { call(&mut cfg, x, base); }
        return cfg;
    }
    cfg.hash(htype(&run["hash"]));
    if let Some(t) = run["threads"].as_u64() { cfg.threads(t as usize); }
    if run["threads"] == "auto" { cfg.auto_threads(); }
    if let Some(q) = run["queue"].as_u64() { cfg.queue_size(q as usize); }
    if run["progress"] == true { cfg.print_progress(); }
    for d in run["dirs"].as_array().unwrap() {
        cfg.add_dir(base.join(pathb(&d[0])), pathb(&d[1]));
    }
    cfg
}

static LEFT: AtomicUsize = AtomicUsize::new(0);
fn settle_threads(n0: usize) {
    let t = Instant::now();
    // (once two runs left threads for that long, others are not waited for as long)
    let long = Duration::from_millis(if LEFT.load(Ordering::SeqCst) < 2 { 10000 } else { 20 });
    while t.elapsed() < long {
        if nthreads() <= n0 { return; }
        std::thread::sleep(Duration::from_micros(200));
    }
    LEFT.fetch_add(1, Ordering::SeqCst);
}
// (a listing of /proc/self/task may leave out threads while others end; this number is exact)
fn nthreads() -> usize {
    let s = fs::read_to_string("/proc/self/stat").unwrap_or_default();
    s.rsplit(')').next().and_then(|t| t.split_whitespace().nth(17)).and_then(|x| x.parse().ok()).unwrap_or(1)
}

fn arm(run: &Value, base: &Path) {
    let mut c = SH.m.lock().unwrap();
    *c = Ctl::default();
    c.root = base.as_os_str().as_bytes().to_vec();
    c.root.push(b'/');
    c.perm = run["perm"].as_u64();
    c.hide = run["hide"] == true;
    c.chunk = run["chunk"].as_u64().unwrap_or(0);
    c.delay = run["delay"].as_u64();
    c.rng = run["delay"].as_u64().unwrap_or(0);
    c.log = run["log"] == true;
    if run["work"] == true {
        COUNTED.store(sym(b"dsv_counted\0") as usize, Ordering::SeqCst);
        c.work = Some(HashMap::new());
    }
    c.slow = run["slow"].as_u64().unwrap_or(0);
    if let Some(fs) = run["faults"].as_array() {
        for f in fs {
            c.faults.push(Fault { op: f[0].as_i64().unwrap() as c_int, path: l1(&f[1]),
                nth: f[2].as_u64().unwrap(), ret: f[3].as_i64().unwrap() as c_int, seen: 0, fired: 0 });
        }
    }
    if let Some(xs) = run["changes"].as_array() {
        for x in xs {
            c.changes.push(Change { op: x[0].as_i64().unwrap() as c_int, path: l1(&x[1]), nth: x[2].as_u64().unwrap(),
                seen: 0, done: x[3].as_array().unwrap().clone() });
        }
    }
    drop(c);
    if !set_hook(Some(hook)) { panic!("shim not loaded"); }
}

fn sym(name: &[u8]) -> *mut libc::c_void {
    let s = unsafe { libc::dlsym(libc::RTLD_DEFAULT, name.as_ptr() as *const c_char) };
    if s.is_null() { panic!("shim not loaded"); }
    s
}
fn maxfd_reset() { unsafe { std::mem::transmute::<_, extern "C" fn()>(sym(b"dsv_maxfd_reset\0"))() } }
fn maxfd() -> c_int { unsafe { std::mem::transmute::<_, extern "C" fn() -> c_int>(sym(b"dsv_maxfd\0"))() } }
fn counter(name: &[u8]) -> c_int { unsafe { std::mem::transmute::<_, extern "C" fn() -> c_int>(sym(name))() } }
fn threads_reset() { unsafe { std::mem::transmute::<_, extern "C" fn()>(sym(b"dsv_threads_reset\0"))() } }

/// what is printed on standard error meanwhile; kind: "full", "pipe", "ro", "blocked": every write to it fails
fn with_stderr<T>(kind: Option<&str>, f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::{Read, Seek};
    use std::os::unix::io::{FromRawFd, IntoRawFd};
    unsafe {
        let mut keep = vec![];
        let m = match kind {
            None => libc::memfd_create(b"err\0".as_ptr() as *const c_char, 0),
            Some("full") => fs::OpenOptions::new().write(true).open("/dev/full").unwrap().into_raw_fd(),
            Some("ro") => fs::File::open("/dev/null").unwrap().into_raw_fd(),
            Some(k) => {
                let mut p = [0; 2];
                if libc::pipe(p.as_mut_ptr()) != 0 { panic!("no pipe"); }
                let rd = fs::File::from_raw_fd(p[0]);
                if k == "blocked" {
                    libc::fcntl(p[1], libc::F_SETFL, libc::O_NONBLOCK);
                    let b = [0u8; 4096];
                    while libc::write(p[1], b.as_ptr() as *const libc::c_void, 4096) > 0 { }
                    while libc::write(p[1], b.as_ptr() as *const libc::c_void, 1) > 0 { }
                    keep.push(rd);
                }
                p[1]
            }
        };
        let old = libc::dup(2);
        if m < 0 || old < 0 || libc::dup2(m, 2) < 0 { panic!("no memory file"); }
        let r = f();
        libc::dup2(old, 2);
        libc::close(old);
        let mut v = vec![];
        let mut m = fs::File::from_raw_fd(m);
        if kind.is_none() {
            let _ = m.rewind();
            let _ = m.read_to_end(&mut v);
        }
        (r, v)
    }
}

/// {"base", "roots", "cmds": [calls and ["scan"], ..]}: one configuration made call by call, and scanned whenever told to
pub fn settings(rq: &Value) -> Value {
    let base = pathb(&rq["base"]);
    mkroots(rq, &base);
    let mut cfg = ScannerConfig::new();
    let mut out = vec![];
    for x in rq["cmds"].as_array().unwrap() {
        if !call(&mut cfg, x, &base) {
            let n0 = nthreads();
            let t0 = counter(b"dsv_threads\0");
            threads_reset();
            // ["scan", {"err", "sink", "slow", "delay", "faults"}]
            let how = &x[1];
            let mut script = how["sink"].clone();
            // "short": what the output lacks, at the end
            if let Some(k) = script["short"].as_u64() {
                let mut all = WScript::new(&Value::Null);
                let _ = guarded(|| v1::scan(&cfg, &mut all));
                script["cut"] = json!((all.got.len() as u64).saturating_sub(k));
            }
            let mut sink = WScript::new(&script);
            if needs_hook(how) { arm(how, &base); }
            let t = Instant::now();
            let (r, err) = with_stderr(how["err"].as_str(), || guarded(|| v1::scan(&cfg, &mut sink)));
            let ms = t.elapsed().as_millis() as u64;
            set_hook(None);
            let most = counter(b"dsv_maxthreads\0") - t0;
            settle_threads(n0);
            out.push(json!({"res": res_s(r), "out": to_l1(&sink.got), "threads": most, "err": to_l1(&err), "ms": ms}));
        }
    }
    let _ = fs::remove_dir_all(&base);
    json!({"scans": out, "cpus": cpus()})
}
/// least and most that may be taken for the number of CPUs: they differ if not all are ours to use
pub fn cpus() -> (usize, usize) {
    let all = fs::read_to_string("/proc/cpuinfo").unwrap_or_default().lines().filter(|l| l.starts_with("processor")).count();
    let ours = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1);
    if all == ours { (all, all) } else { (1, all.max(ours)) }
}

static KEPT: AtomicUsize = AtomicUsize::new(0);
fn nfds() -> usize { fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0) }

/// everything about a tree that scanning it must not change
fn snapshot(p: &Path, out: &mut Vec<Value>) {
    let m = match fs::symlink_metadata(p) { Ok(m) => m, Err(e) => { out.push(json!([path_l1(p), e.to_string()])); return; } };
    let what = if m.file_type().is_symlink() { fs::read_link(p).map(|x| path_l1(&x)).unwrap_or_default() } else { String::new() };
    out.push(json!([path_l1(p), m.mode(), m.size(), m.nlink(), m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec(), m.ino(), what]));
    if m.is_dir() {
        let mut v: Vec<_> = fs::read_dir(p).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        v.sort();
        for x in v { snapshot(&x, out); }
    }
}

fn needs_hook(run: &Value) -> bool {
    ["perm", "hide", "chunk", "faults", "delay", "log", "slow", "changes", "always_hook", "work"].iter().any(|k| !run[*k].is_null() && run[*k] != false)
}

/// {"base": scratch dir (absent), "roots": [[name, nodes], ..], "runs": [...]}: makes the trees, performs
/// the runs, removes the trees.
pub fn scan(rq: &Value) -> Value {
    let base = pathb(&rq["base"]);
    mkroots(rq, &base);
    let mut out = vec![];
    if rq["parallel"] == true {
        // all at once; nothing of one may show in another
        let hs: Vec<_> = rq["runs"].as_array().unwrap().iter().map(|run| {
            let (cfg, run) = (config(run, &base), run.clone());
            std::thread::spawn(move || {
                let mut sink = WScript::new(&run["sink"]);
                let r = guarded(|| v1::scan(&cfg, &mut sink));
                json!({"res": res_s(r), "out": to_l1(&sink.got), "sink_fired": sink.fired})
            })
        }).collect();
        out = hs.into_iter().map(|h| h.join().unwrap()).collect();
        let _ = fs::remove_dir_all(&base);
        return json!(out);
    }
    for run in rq["runs"].as_array().unwrap() {
        let cfg = config(run, &base);
        let mut sink = WScript::new(&run["sink"]);
        let hooked = needs_hook(run);
        let traced = run["resources"] == true;
        let (mut before, mut f0, mut base_fd) = (vec![], 0, 0);
        if traced {
            snapshot(&base, &mut before);
            f0 = nfds();
            base_fd = fs::File::open("/dev/null").unwrap().as_raw_fd();
        }
        let n0 = nthreads();
        if hooked {
            arm(run, &base);
            if run["log"] == true {
                sink.lines = Some(Arc::new(|n| {
                    let mut c = SH.m.lock().unwrap();
                    c.events.push(json!(["lines", n]));
                }));
            }
        }
        if run["again"] == true {
            // a configuration is used again and again
            let _ = guarded(|| v1::scan(&cfg, &mut WScript::new(&json!({"null": true}))));
            settle_threads(n0);
        }
        if traced { maxfd_reset(); }
        if run["work"] == true { unsafe { std::mem::transmute::<_, extern "C" fn()>(sym(b"dsv_bytes_reset\0"))() } }
        let m0 = mem::start();
        let r = guarded(|| v1::scan(&cfg, &mut sink));
        let peak = mem::peak_since(m0);
        let top = if traced { maxfd() } else { 0 };
        settle_threads(n0);
        let mut o = json!({"res": res_s(r), "out": to_l1(&sink.got), "sink_fired": sink.fired, "peak": peak, "cpu": mem::cpu(), "total": sink.total});
        if hooked {
            set_hook(None);
            let c = SH.m.lock().unwrap();
            o["fired"] = json!(c.faults.iter().map(|f| f.fired).collect::<Vec<_>>());
            o["nreads"] = json!(c.nreads);
            if !run["changes"].is_null() { o["changed"] = json!(c.changed); }
            if c.log { o["events"] = json!(c.events); }
            if let Some(ref w) = c.work {
                o["work"] = json!(w.iter().map(|(k, v)| json!([to_l1(k), v])).collect::<Vec<_>>());
                o["bytes"] = json!(unsafe { std::mem::transmute::<_, extern "C" fn() -> c_long>(sym(b"dsv_bytes\0"))() });
            }
        }
        if traced {
            let n1 = nthreads();
            let t = Instant::now();
            // what a thread held is let go a little later than the thread is gone
            // (once two runs kept something for that long, others are not waited for as long)
            let long = Duration::from_millis(if KEPT.load(Ordering::SeqCst) < 2 { 3000 } else { 50 });
            while nfds() > f0 && t.elapsed() < long { std::thread::sleep(Duration::from_micros(500)); }
            if nfds() > f0 { KEPT.fetch_add(1, Ordering::SeqCst); }
            let mut after = vec![];
            snapshot(&base, &mut after);
            o["fds"] = json!([f0, nfds(), (top - base_fd + 1).max(0)]);
            o["threads"] = json!([n0, n1]);
            o["touched"] = json!(before.iter().zip(&after).find(|(a, b)| a != b).map(|(a, b)| json!([a, b])).unwrap_or(json!(before.len() != after.len())));
        }
        out.push(o);
    }
    let _ = std::env::set_current_dir("/");
    let _ = fs::remove_dir_all(&base);
    json!(out)
}

/// what all of a process shares and uses of the library have no business with
fn process(all: bool) -> Value {
    let st = fs::read_to_string("/proc/self/status").unwrap_or_default();
    let keep: Vec<&str> = st.lines().filter(|l| ["Umask:", "SigIgn:", "SigCgt:", "NoNewPrivs:", "Uid:", "Gid:", "Groups:", "CapEff:"].iter().any(|k| l.starts_with(k))).collect();
    let cwd = fs::read_link("/proc/self/cwd").map(|p| path_l1(&p)).unwrap_or_default();
    if !all { return json!([cwd, keep]); }
    let mut env: Vec<String> = std::env::vars_os().map(|(k, v)| format!("{:?}={:?}", k, v)).collect();
    env.sort();
    json!([cwd, keep, env, fs::read_to_string("/proc/self/limits").unwrap_or_default()])
}

/// {"base", "jobs": [request, ..], "ms"}: every job again and again on a thread of its own, all at the same
/// time; a job with "op" "scan" has "roots", "run", and "rel" if its directories are given relatively
pub fn together(rq: &Value) -> Value {
    let base = pathb(&rq["base"]);
    fs::create_dir(&base).unwrap();
    let jobs = rq["jobs"].as_array().unwrap();
    for (i, j) in jobs.iter().enumerate() {
        if j["op"] == "scan" { mkroots(j, &base.join(format!("j{}", i))); }
    }
    std::env::set_current_dir(&base).unwrap();
    // "faults" of a job are below its own directory
    let mut faults = vec![];
    for (i, j) in jobs.iter().enumerate() {
        for f in j["faults"].as_array().unwrap_or(&vec![]) {
            faults.push(json!([f[0], format!("j{}/{}", i, f[1].as_str().unwrap()), f[2], f[3]]));
        }
    }
    if !faults.is_empty() || rq["delay"].is_u64() { arm(&json!({"faults": faults, "delay": rq["delay"]}), &base); }
    let long = Duration::from_millis(rq["ms"].as_u64().unwrap());
    // not the values anything would set
    unsafe {
        libc::umask(0o153);
        let mut l: libc::rlimit = std::mem::zeroed();
        for what in [libc::RLIMIT_NOFILE, libc::RLIMIT_STACK, libc::RLIMIT_FSIZE] {
            libc::getrlimit(what, &mut l);
            l.rlim_cur = match what { libc::RLIMIT_NOFILE => l.rlim_max.min(5000) - 1, libc::RLIMIT_STACK => l.rlim_max.min(9 << 20), _ => l.rlim_max.min(1 << 45) };
            libc::setrlimit(what, &l);
        }
    }
    // the first thread of a process installs a signal handler of the C library's
    let _ = std::thread::spawn(|| ()).join();
    let before = process(true);
    let now = process(false);
    let gate = Arc::new(std::sync::Barrier::new(jobs.len() + 1));
    let busy = Arc::new(AtomicUsize::new(jobs.len()));
    let nested: Arc<Mutex<Vec<Vec<(Value, usize)>>>> = Arc::new(Mutex::new(vec![vec![]; jobs.len()]));
    let hs: Vec<_> = jobs.iter().enumerate().map(|(i, j)| {
        let (j, gate, base, busy) = (j.clone(), gate.clone(), base.clone(), busy.clone());
        // "nest": while job i reads or writes, the next is done in the same thread
        let nest = if rq["nest"] == true { Some((i + 1) % jobs.len()) } else { None };
        let (inner, list) = (jobs[(i + 1) % jobs.len()].clone(), nested.clone());
        std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let mut got: Vec<(Value, usize)> = vec![];
            gate.wait();
            let t = Instant::now();
            let mut n = 0;
            while n < 2 || (n < 300 && t.elapsed() < long) {
                n += 1;
                if let Some(k) = nest {
                    let (inner, base, list) = (inner.clone(), base.clone(), list.clone());
                    set_inside(Some(Box::new(move || {
                        let a = one_job(&inner, k, &base);
                        let mut l = list.lock().unwrap();
                        match l[k].iter_mut().find(|(x, _)| *x == a) { Some(x) => x.1 += 1, None => l[k].push((a, 1)) }
                    })));
                }
                let a = one_job(&j, i, &base);
                set_inside(None);
                match got.iter_mut().find(|(x, _)| *x == a) { Some(x) => x.1 += 1, None => got.push((a, 1)) }
            }
            busy.fetch_sub(1, Ordering::SeqCst);
            json!(got)
        }).unwrap()
    }).collect();
    let mut seen: Vec<Value> = vec![];
    gate.wait();
    while busy.load(Ordering::SeqCst) > 0 {
        let p = process(false);
        if !seen.contains(&p) { seen.push(p); }
        std::thread::sleep(Duration::from_micros(100));
        if hs.iter().all(|h| h.is_finished()) { break; }
    }
    let mut out: Vec<Value> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| json!([["panic", 1]]))).collect();
    for (o, l) in out.iter_mut().zip(nested.lock().unwrap().iter()) {
        for x in l { o.as_array_mut().unwrap().push(json!(x)); }
    }
    let after = process(true);
    set_hook(None);
    unsafe { libc::umask(0o022); }
    let _ = std::env::set_current_dir("/");
    let _ = fs::remove_dir_all(&base);
    json!({"got": out, "before": before.to_string(), "now": now.to_string(), "after": after.to_string(),
           "seen": seen.iter().map(|p| p.to_string()).collect::<Vec<_>>()})
}

fn one_job(j: &Value, i: usize, base: &Path) -> Value {
    let mut a = if j["op"] == "scan" {
        let d = format!("j{}", i);
        let cfg = config(&j["run"], &if j["rel"] == true { d.into() } else { base.join(d) });
        let mut sink = WScript::new(&j["run"]["sink"]);
        let r = guarded(|| v1::scan(&cfg, &mut sink));
        json!({"res": res_s(r), "out": to_l1(&sink.got)})
    } else {
        guarded(|| crate::dispatch(j["op"].as_str().unwrap(), j)).unwrap_or_else(|m| json!({"panic": m}))
    };
    for k in &["peak", "cpu"] { if a[*k].is_number() { a[*k] = json!(0); } }
    a
}

/// {"base", "roots", "run", "gates": [paths of gated files], "steps": [{"lines": n, "open": path or null,
/// "opens": files to be in work, "idle_us"}], "timeout_ms"}: opening a gated file waits until its gate is opened. Before each step's
/// gate is opened, waits for n lines and until nothing happens any more. "run" must have "log".
pub fn pool(rq: &Value) -> Value {
    let base = pathb(&rq["base"]);
    fs::create_dir(&base).unwrap();
    for r in rq["roots"].as_array().unwrap() {
        let p = base.join(pathb(&r[0]));
        fs::create_dir(&p).unwrap();
        mktree(&p, &r[1]);
    }
    let run = &rq["run"];
    let cfg = config(run, &base);
    let n0 = nthreads();
    arm(run, &base);
    {
        let mut c = SH.m.lock().unwrap();
        for g in rq["gates"].as_array().unwrap() { c.gates.insert(l1(g)); }
    }
    let mut sink = WScript::new(&run["sink"]);
    sink.lines = Some(Arc::new(|n| {
        let mut c = SH.m.lock().unwrap();
        c.lines = n;
        if c.log { c.events.push(json!(["lines", n])); }
        SH.cv.notify_all();
    }));
    let timeout = Duration::from_millis(rq["timeout_ms"].as_u64().unwrap_or(20000));
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::spawn(move || {
        let r = guarded(|| v1::scan(&cfg, &mut sink));
        let _ = tx.send(());
        (r, sink)
    });
    let mut stuck = false;
    for st in rq["steps"].as_array().unwrap() {
        // everything before the oldest closed gate has to be written ...
        let wl = st["lines"].as_u64().unwrap() as usize;
        let t = Instant::now();
        let mut c = SH.m.lock().unwrap();
        while c.lines < wl && t.elapsed() < timeout {
            c = SH.cv.wait_timeout(c, Duration::from_millis(50)).unwrap().0;
        }
        if c.lines < wl { stuck = true; }
        // ... and the file to be released next should have been started, but nothing promises that
        if st["open"].is_string() {
            let g = l1(&st["open"]);
            let t = Instant::now();
            while !c.started.contains(&g) && t.elapsed() < Duration::from_millis(250) {
                c = SH.cv.wait_timeout(c, Duration::from_millis(20)).unwrap().0;
            }
        }
        // so many files are in work
        if let Some(k) = st["opens"].as_u64() {
            let t = Instant::now();
            while (c.started.len() as u64) < k && t.elapsed() < timeout {
                c = SH.cv.wait_timeout(c, Duration::from_millis(20)).unwrap().0;
            }
        }
        // let it come to rest
        let idle = Duration::from_micros(st["idle_us"].as_u64().unwrap_or(800));
        let mut k = c.events.len();
        loop {
            drop(c);
            std::thread::sleep(idle);
            c = SH.m.lock().unwrap();
            if c.events.len() == k { break; }
            k = c.events.len();
        }
        let n = c.lines;
        c.events.push(json!(["rest", n]));
        if stuck { break; }
        if st["open"].is_string() {
            let g = l1(&st["open"]);
            c.events.push(json!(["gate", to_l1(&g)]));
            c.gates.remove(&g);
            SH.cv.notify_all();
        }
    }
    {
        let mut c = SH.m.lock().unwrap();
        for g in std::mem::take(&mut c.gates) {
            let v = json!(["gate", to_l1(&g)]);
            c.events.push(v);
        }
        SH.cv.notify_all();
    }
    let done = rx.recv_timeout(timeout).is_ok();
    let mut o = json!({"stuck": stuck, "done": done});
    if done {
        let (r, sink) = h.join().unwrap();
        settle_threads(n0);
        o["res"] = res_s(r);
        o["out"] = json!(to_l1(&sink.got));
    }
    set_hook(None);
    o["events"] = json!(SH.m.lock().unwrap().events);
    let _ = fs::remove_dir_all(&base);
    if !done {
        // a scan that never ends: the process is of no further use
        use std::io::Write;
        let out = json!({"id": rq["id"], "r": o});
        let mut so = std::io::stdout().lock();
        let _ = writeln!(so, "{}", out);
        let _ = so.flush();
        std::process::exit(3);
    }
    o
}

