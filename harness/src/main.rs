//! Executes operations on the library, one JSON object per line, and reports what happened, one
//! JSON object per line. It decides nothing.

mod conv;
mod json;
mod meter;
mod squeeze;
mod sys;
mod tagops;

use conv::*;
use json::J;
use mp4ameta::*;
use std::fs::{File, OpenOptions};
use std::io::{self, BufRead, Cursor, Read, Seek, SeekFrom, Write};
use std::os::raw::c_uint;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use sys::{Act, Fault, Mode, Op, ST};

#[global_allocator]
static METER: meter::Meter = meter::Meter;

extern "C" {
    fn alarm(s: c_uint) -> c_uint;
    fn setitimer(which: std::os::raw::c_int, new: *const [i64; 4], old: *mut [i64; 4]) -> std::os::raw::c_int;
}

/// Ends the process when a call takes too long: seconds of work, or five times as many when others use the machine.
fn watch(s: c_uint) {
    const ITIMER_PROF: std::os::raw::c_int = 2;
    unsafe {
        setitimer(ITIMER_PROF, &[0, 0, s as i64, 0], std::ptr::null_mut());
        alarm(s * 5);
    }
}

/// Zeros inside the media data that aren't part of the bytes of the trace: a sparse file, so that
/// positions exceed 32 bits. `add` are the fields (position, width) that the length is added to.
struct Hole {
    at: u64,
    len: u64,
    add: Vec<(usize, usize)>,
}

impl Hole {
    fn adjust(&self, bytes: &mut [u8], grow: bool) {
        for (p, w) in self.add.iter() {
            if p + w <= bytes.len() {
                let v = bytes[*p..p + w].iter().fold(0u64, |v, b| v << 8 | *b as u64);
                let n = if grow { v.wrapping_add(self.len) } else { v.wrapping_sub(self.len) };
                bytes[*p..p + w].copy_from_slice(&n.to_be_bytes()[8 - w..]);
            }
        }
    }

    fn make(&self, path: &Path, mut bytes: Vec<u8>) -> io::Result<()> {
        self.adjust(&mut bytes, true);
        let f = File::create(path)?;
        let at = self.at as usize;
        f.set_len(bytes.len() as u64 + self.len)?;
        f.write_all_at(&bytes[..at], 0)?;
        f.write_all_at(&bytes[at..], self.at + self.len)
    }

    /// The bytes of the file without the zeros, or what there is if it isn't long enough.
    fn content(&self, path: &Path) -> io::Result<Vec<u8>> {
        let f = File::open(path)?;
        let n = f.metadata()?.len();
        if n < self.at + self.len {
            let mut v = vec![0; n.min(self.at) as usize];
            f.read_exact_at(&mut v, 0)?;
            return Ok(v);
        }
        let mut v = vec![0; (n - self.len) as usize];
        let (a, b) = v.split_at_mut(self.at as usize);
        f.read_exact_at(a, 0)?;
        f.read_exact_at(b, self.at + self.len)?;
        self.adjust(&mut v, false);
        // what isn't zero any more is shown as part of the bytes
        let mut p = self.at;
        let end = self.at + self.len;
        let mut buf = vec![0; 1 << 16];
        while p < end {
            let k = (buf.len() as u64).min(end - p) as usize;
            f.read_exact_at(&mut buf[..k], p)?;
            if let Some(i) = buf[..k].iter().position(|b| *b != 0) {
                v.insert(self.at as usize, buf[i]);
                break;
            }
            p += k as u64;
            match sys::next_data(&f, p) {
                Some(q) => p = q.max(p),
                None => break,
            }
        }
        Ok(v)
    }
}

struct Env {
    dir: PathBuf,
    tag: Tag,
    hole: Option<Hole>,
}

fn fault_of(j: &J) -> Option<Fault> {
    if !j.has("class") {
        return None;
    }
    let class = match j.get("class").str() {
        "read" => 0,
        "write" => 1,
        "seek" => 2,
        "resize" => 3,
        _ => return None,
    };
    let mode = match j.get("mode").str() {
        "short" => Mode::Short,
        "eintr" => Mode::Eintr,
        "zero" => Mode::Zero,
        "script" => Mode::Script,
        _ => Mode::Err,
    };
    Some(Fault {
        class,
        n: j.get("n").int() as u64,
        mode,
        errno: j.get("errno").int() as i32,
        len: j.get("len").int() as usize,
        sticky: j.get("sticky").bool(),
        script: j
            .get("script")
            .arr()
            .iter()
            .map(|o| (o.get("k").str().to_string(), o.get("n").int()))
            .collect(),
    })
}

#[allow(static_mut_refs)]
fn sys_start(j: &J) {
    sys_start_at(j, None)
}

#[allow(static_mut_refs)]
fn sys_start_at(j: &J, path: Option<&Path>) {
    use std::os::unix::fs::MetadataExt;
    let m = path.and_then(|p| std::fs::metadata(p).ok());
    let target = m.map_or((0, 0), |m| (m.dev(), m.ino()));
    unsafe {
        ST = sys::State::default();
        ST.fault = fault_of(j.get("fault"));
        ST.log = j.get("log").bool();
        ST.target = target;
        ST.sparse = SQUEEZE.load(Ordering::Relaxed) > 0;
        ST.active = true;
    }
}

#[allow(static_mut_refs)]
fn sys_end() -> (J, J, J) {
    unsafe {
        ST.active = false;
        let ops = std::mem::take(&mut ST.ops);
        let ops = ops
            .iter()
            .map(|o| match o {
                Op::Write(p, d) => obj! {"w" => J::Int(*p), "b" => b(d)},
                Op::Trunc(n) => obj! {"w" => J::Int(-1), "n" => J::Int(*n)},
            })
            .collect();
        let counts = ST.counts.iter().map(|c| J::Int(*c as i64)).collect();
        (J::Arr(ops), J::Arr(counts), J::Int(ST.fired as i64))
    }
}

/// The outcome of a call.
enum Out<T> {
    Ok(T),
    Err(J),
    Panic,
}

fn guard<T>(f: impl FnOnce() -> mp4ameta::Result<T>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(e)) => Out::Err(err_out(&e)),
        Err(_) => Out::Panic,
    }
}

fn st(s: &str) -> (String, J) {
    ("st".to_string(), J::Str(s.to_string()))
}

fn outcome<T>(o: &Out<T>) -> Vec<(String, J)> {
    let (s, e) = match o {
        Out::Ok(_) => ("ok", obj! {"k" => J::Str("".into()), "a" => none(), "c" => none(), "d" => J::Str("".into())}),
        Out::Err(e) => ("err", e.clone()),
        Out::Panic => ("panic", obj! {"k" => J::Str("".into()), "a" => none(), "c" => none(), "d" => J::Str("".into())}),
    };
    vec![st(s), ("err".to_string(), e)]
}

/// A reader or writer over memory that misbehaves as told.
struct Wild {
    c: Cursor<Vec<u8>>,
    fault: Option<Fault>,
    counts: [u64; 4],
    fired: u64,
}

impl Wild {
    fn new(v: Vec<u8>, fault: Option<Fault>) -> Self {
        Self { c: Cursor::new(v), fault, counts: [0; 4], fired: 0 }
    }
    fn act(&mut self, class: usize) -> io::Result<Act> {
        match sys::decide(&self.fault, &mut self.counts, &mut self.fired, class) {
            Act::Fail(e) if e == sys::EINTR && class > 1 => Ok(Act::Go),
            Act::Fail(e) => Err(io::Error::from_raw_os_error(e)),
            a => Ok(a),
        }
    }
}

impl Read for Wild {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.act(0)? {
            Act::Go | Act::Fail(_) => self.c.read(buf),
            Act::Limit(n) => {
                let n = n.min(buf.len());
                self.c.read(&mut buf[..n])
            }
            Act::Zero => Ok(0),
        }
    }
}

impl Write for Wild {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        match self.act(1)? {
            Act::Go | Act::Fail(_) => self.c.write(buf),
            Act::Limit(n) => {
                let n = n.min(buf.len());
                self.c.write(&buf[..n])
            }
            Act::Zero => Ok(0),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Seek for Wild {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.act(2)?;
        self.c.seek(pos)
    }
}

/// A reader over memory that isn't buffered in any way, reading behind the given prefix.
struct Inner(Cursor<Vec<u8>>);
impl Read for Inner {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.read(buf)
    }
}
impl Seek for Inner {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.0.seek(pos)
    }
}

impl Env {
    fn path(&self) -> PathBuf {
        self.dir.join("disk.m4a")
    }
    fn content(&self) -> Vec<u8> {
        match &self.hole {
            None if SQUEEZE.load(Ordering::Relaxed) > 0 => self.squeezed(&self.path()).0,
            None => std::fs::read(self.path()).unwrap_or_default(),
            Some(h) => h.content(&self.path()).unwrap_or_default(),
        }
    }
    /// A file without the zeros that are left out, and where they were.
    fn squeezed(&self, path: &Path) -> (Vec<u8>, J) {
        let mut s = squeeze::Squeeze::new(SQUEEZE.load(Ordering::Relaxed));
        if let Ok(f) = File::open(path) {
            let _ = s.file(&f);
        }
        (s.out, opt(s.cut.map(|c| J::Int(c as i64))))
    }
    fn dump_path(&self) -> PathBuf {
        self.dir.join("dump.m4a")
    }

    /// A path at which there's nothing, or something that isn't a file.
    fn bad_path(&self, how: &str, sub: bool) -> PathBuf {
        match (how, sub) {
            ("folder", _) => self.dir.clone(),
            (_, false) => self.dir.join("missing.m4a"),
            (_, true) => self.dir.join("missing").join("dump.m4a"),
        }
    }
    fn left(&self) -> J {
        J::Bool(self.dir.join("missing.m4a").exists() || self.dir.join("missing").exists())
    }

    fn tag_for(&self, j: &J) -> Tag {
        if j.has("items") {
            let mut t = Tag::default();
            load_items(&mut t, j.get("items"));
            t
        } else {
            self.tag.clone()
        }
    }

    fn read(&mut self, j: &J) -> J {
        let how = j.get("how").str();
        let at = j.get("at").int() as u64;
        let bytes = if j.has("bytes") {
            j.get("bytes").bytes()
        } else if SQUEEZE.load(Ordering::Relaxed) > 0 {
            vec![] // only by path or file
        } else {
            self.content()
        };
        let mut extra = (none(), J::Int(0));
        let path = self.path();
        let m;
        let r = match how {
            "missing" | "folder" => {
                m = meter::start();
                let p = self.bad_path(how, false);
                guard(|| Tag::read_from_path(&p))
            }
            "writeonly" => {
                let mut f = OpenOptions::new().write(true).open(&path).unwrap();
                m = meter::start();
                guard(|| Tag::read_from(&mut f))
            }
            "path" | "file" | "handle" => {
                if j.has("bytes") {
                    self.hole = None;
                    std::fs::write(&path, &bytes).unwrap();
                }
                m = meter::start();
                let r = if how == "path" {
                    sys_start(j);
                    guard(|| Tag::read_from_path(&path))
                } else {
                    let mut f = File::open(&path).unwrap();
                    f.seek(SeekFrom::Start(at)).unwrap();
                    sys_start(j);
                    if how == "file" {
                        guard(|| Tag::read_from(&mut f))
                    } else {
                        guard(|| Tag::read_from(&mut io::BufReader::new(f)))
                    }
                };
                let (_, c, fired) = sys_end();
                extra = (c, fired);
                r
            }
            "wild" => {
                let mut w = Wild::new(bytes, fault_of(j.get("fault")));
                w.c.set_position(at);
                m = meter::start();
                let r = guard(|| Tag::read_from(&mut w));
                extra = (
                    J::Arr(w.counts.iter().map(|c| J::Int(*c as i64)).collect()),
                    J::Int(w.fired as i64),
                );
                r
            }
            "buf" => {
                let mut c = Cursor::new(bytes);
                c.set_position(at);
                m = meter::start();
                guard(|| Tag::read_from(&mut io::BufReader::with_capacity(7, &mut c)))
            }
            _ => {
                let mut c = Inner(Cursor::new(bytes));
                c.0.set_position(at);
                m = meter::start();
                guard(|| Tag::read_from(&mut c))
            }
        };
        let peak = meter::peak(m);
        let mut o = outcome(&r);
        o.push(("tag".into(), match r {
            Out::Ok(t) => {
                let v = tag_out(&t);
                if j.get("keep").bool() {
                    self.tag = t;
                }
                J::Arr(vec![v])
            }
            _ => none(),
        }));
        o.push(("peak".into(), J::Int(peak as i64)));
        o.push(("counts".into(), extra.0));
        o.push(("fired".into(), extra.1));
        o.push(("left".into(), self.left()));
        if SQUEEZE.load(Ordering::Relaxed) > 0 {
            let (v, cut) = self.squeezed(&path);
            o.push(("post".into(), b(&v)));
            o.push(("cut".into(), cut));
        } else if !j.has("bytes") {
            o.push(("post".into(), b(&self.content())));
        }
        J::Obj(o)
    }

    fn write(&mut self, j: &J) -> J {
        let path = self.path();
        let t = self.tag_for(j);
        let m = meter::start();
        let how = j.get("how").str();
        let r = if how == "missing" || how == "folder" {
            let p = self.bad_path(how, false);
            sys_start(j);
            guard(|| t.write_to_path(&p))
        } else if how == "readonly" || how == "writeonly" {
            let f = OpenOptions::new()
                .read(how == "readonly")
                .write(how == "writeonly")
                .open(&path)
                .unwrap();
            sys_start_at(j, Some(path.as_ref()));
            guard(|| t.write_to(&f))
        } else if how == "handle" {
            let mut f = OpenOptions::new().read(true).write(true).open(&path).unwrap();
            f.seek(SeekFrom::Start(j.get("at").int().max(0) as u64)).unwrap();
            sys_start_at(j, Some(path.as_ref()));
            guard(|| t.write_to(&f))
        } else {
            sys_start_at(j, Some(path.as_ref()));
            guard(|| t.write_to_path(&path))
        };
        let (ops, counts, fired) = sys_end();
        let peak = meter::peak(m);
        let mut o = outcome(&r);
        if SQUEEZE.load(Ordering::Relaxed) > 0 {
            let (v, cut) = self.squeezed(&path);
            o.push(("post".into(), b(&v)));
            o.push(("cut".into(), cut));
        } else {
            o.push(("post".into(), b(&self.content())));
        }
        o.push(("left".into(), self.left()));
        o.push(("ops".into(), ops));
        o.push(("peak".into(), J::Int(peak as i64)));
        o.push(("counts".into(), counts));
        o.push(("fired".into(), fired));
        J::Obj(o)
    }

    fn dump(&mut self, j: &J) -> J {
        let t = self.tag_for(j);
        let how = j.get("how").str();
        let mut extra = (none(), J::Int(0));
        let mut cut = none();
        let (r, bytes) = match how {
            "missing" | "folder" => {
                let p = self.bad_path(how, true);
                (guard(|| t.dump_to_path(&p)), vec![])
            }
            "path" => {
                let p = self.dump_path();
                let _ = std::fs::remove_file(&p);
                if j.has("over") {
                    std::fs::write(&p, j.get("over").bytes()).unwrap();
                }
                sys_start(j);
                let r = guard(|| t.dump_to_path(&p));
                let (_, c, fired) = sys_end();
                extra = (c, fired);
                let v = if SQUEEZE.load(Ordering::Relaxed) > 0 {
                    let (v, c) = self.squeezed(&p);
                    cut = c;
                    let _ = std::fs::remove_file(&p);
                    v
                } else {
                    std::fs::read(&p).unwrap_or_default()
                };
                (r, v)
            }
            _ if how != "path" && SQUEEZE.load(Ordering::Relaxed) > 0 => {
                let mut w = squeeze::Squeeze::new(SQUEEZE.load(Ordering::Relaxed));
                let r = guard(|| t.dump_to(&mut w));
                w.end();
                cut = opt(w.cut.map(|c| J::Int(c as i64)));
                (r, w.out)
            }
            "wild" => {
                let mut w = Wild::new(Vec::new(), fault_of(j.get("fault")));
                let r = guard(|| t.dump_to(&mut w));
                extra = (
                    J::Arr(w.counts.iter().map(|c| J::Int(*c as i64)).collect()),
                    J::Int(w.fired as i64),
                );
                (r, w.c.into_inner())
            }
            "bufw" => {
                let mut w = io::BufWriter::with_capacity(5, Vec::new());
                let r = guard(|| t.dump_to(&mut w));
                w.flush().unwrap();
                (r, w.into_inner().unwrap_or_default())
            }
            _ => {
                let mut v = j.get("over").bytes();
                let n = v.len();
                let r = guard(|| t.dump_to(&mut v));
                (r, v.split_off(n.min(v.len())))
            }
        };
        let mut o = outcome(&r);
        o.push(("bytes".into(), b(&bytes)));
        o.push(("cut".into(), cut));
        o.push(("left".into(), self.left()));
        o.push(("counts".into(), extra.0));
        o.push(("fired".into(), extra.1));
        J::Obj(o)
    }

    fn tag_op(&mut self, j: &J) -> J {
        let t = &mut self.tag;
        match catch_unwind(AssertUnwindSafe(|| tagops::run(t, j))) {
            Ok(r) => {
                let items = items_out(&self.tag);
                obj! {
                    "st" => J::Str("ok".into()),
                    "ret" => r,
                    "items" => items,
                    "count" => tagops::count_items(&self.tag),
                    "empty" => J::Bool(self.tag.is_empty()),
                }
            }
            Err(_) => {
                self.tag = Tag::default();
                obj! {"st" => J::Str("panic".into()), "ret" => none(), "items" => none(), "count" => none(), "empty" => J::Bool(true)}
            }
        }
    }

    fn display(&mut self, j: &J) -> J {
        let mut t = Tag::new(j.get("ftyp").text(), info_in(j.get("info")), vec![]);
        load_items(&mut t, j.get("items"));
        let before = t.clone();
        let r = catch_unwind(AssertUnwindSafe(|| t.to_string()));
        let again = catch_unwind(AssertUnwindSafe(|| before.to_string()));
        match (r, again) {
            (Ok(s), Ok(s2)) => {
                obj! {
                    "st" => J::Str("ok".into()), "text" => J::from_text(&s),
                    "same" => J::Bool(t == before && s == s2),
                }
            }
            _ => {
                obj! {"st" => J::Str("panic".into()), "text" => none(), "same" => J::Bool(false)}
            }
        }
    }

    fn exec(&mut self, j: &J) -> J {
        match j.get("op").str() {
            "begin" => {
                self.tag = Tag::default();
                self.hole = None;
                let k = if j.has("squeeze") { j.get("squeeze").int() as u64 } else { 0 };
                if k > 0 && !squeeze::able(&self.dir) {
                    return obj! {"st" => J::Str("unable".into())};
                }
                SQUEEZE.store(k, Ordering::Relaxed);
                meter::HARD.store(if k > 0 { 1 << 36 } else { 1 << 30 }, Ordering::Relaxed);
                let _ = std::fs::remove_file(self.path());
                obj! {"st" => J::Str("ok".into())}
            }
            "disk" => {
                let bytes = j.get("bytes").bytes();
                let h = j.get("hole");
                if h.has("at") {
                    let add = h.get("add").arr().iter();
                    let hole = Hole {
                        at: h.get("at").int() as u64,
                        len: h.get("len").int() as u64,
                        add: add.map(|a| (a.arr()[0].int() as usize, a.arr()[1].int() as usize)).collect(),
                    };
                    let _ = std::fs::remove_file(self.path());
                    let r = hole.make(&self.path(), bytes);
                    // or it is found again by the zeros
                    self.hole = if SQUEEZE.load(Ordering::Relaxed) > 0 { None } else { Some(hole) };
                    // a file system without large or sparse files can't tell
                    return obj! {"st" => J::Str(if r.is_ok() { "ok" } else { "unable" }.into())};
                }
                self.hole = None;
                std::fs::write(self.path(), bytes).unwrap();
                obj! {"st" => J::Str("ok".into())}
            }
            "read" => self.read(j),
            "write" => self.write(j),
            "dump" => self.dump(j),
            "t" => self.tag_op(j),
            "views" => match catch_unwind(AssertUnwindSafe(|| tagops::views(j.get("v")))) {
                Ok(v) => obj! {"st" => J::Str("ok".into()), "views" => v},
                Err(_) => obj! {"st" => J::Str("panic".into()), "views" => J::Obj(vec![])},
            },
            "codes" => {
                let c = j.get("c").int() as u8;
                match catch_unwind(AssertUnwindSafe(|| tagops::codes(c))) {
                    Ok(v) => obj! {"st" => J::Str("ok".into()), "codes" => v},
                    Err(_) => obj! {"st" => J::Str("panic".into()), "codes" => J::Obj(vec![])},
                }
            }
            "display" => self.display(j),
            "idents" => match catch_unwind(AssertUnwindSafe(|| tagops::idents(j.get("a"), j.get("b")))) {
                Ok(v) => obj! {"st" => J::Str("ok".into()), "seen" => v},
                Err(_) => obj! {"st" => J::Str("panic".into()), "seen" => J::Obj(vec![])},
            },
            "twins" => match catch_unwind(AssertUnwindSafe(|| tagops::twins(j.get("a"), j.get("b")))) {
                Ok(v) => obj! {"st" => J::Str("ok".into()), "seen" => v},
                Err(_) => obj! {"st" => J::Str("panic".into()), "seen" => J::Obj(vec![])},
            },
            "consts" => obj! {"st" => J::Str("ok".into()), "seen" => tagops::consts()},
            o => panic!("operation {}", o),
        }
    }
}

/// Calls get the stack that threads have by default, 2 MiB.
fn limit_stack() {
    extern "C" {
        fn setrlimit(resource: std::os::raw::c_int, limit: *const [u64; 2]) -> std::os::raw::c_int;
        fn getrlimit(resource: std::os::raw::c_int, limit: *mut [u64; 2]) -> std::os::raw::c_int;
    }
    const RLIMIT_STACK: std::os::raw::c_int = 3;
    let mut l = [0u64; 2];
    unsafe {
        if getrlimit(RLIMIT_STACK, &mut l) == 0 {
            setrlimit(RLIMIT_STACK, &[l[0].min(2 << 20), l[1]]);
        }
    }
}

fn main() {
    limit_stack();
    let args: Vec<String> = std::env::args().collect();
    let mut env = Env { dir: PathBuf::from(&args[1]), tag: Tag::default(), hole: None };
    std::panic::set_hook(Box::new(|_| ()));
    let stdin = io::stdin();
    let mut out = io::stdout();
    let mut line = String::new();
    let mut input = stdin.lock();
    loop {
        line.clear();
        if input.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let j = json::parse(&line);
        let squeezed = SQUEEZE.load(Ordering::Relaxed) > 0;
        watch(if squeezed { 120 } else { 20 });
        let r = env.exec(&j);
        watch(0);
        let mut s = String::new();
        r.write(&mut s);
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
