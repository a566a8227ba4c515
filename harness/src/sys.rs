//! Interposed file system calls: while active, every read, write, seek and resize that the library
//! performs passes through here, is recorded if it changes a file, and may be made to fail, to
//! transfer less than requested, or to be interrupted.

#![allow(static_mut_refs)]

use std::os::raw::{c_int, c_long, c_void};

pub enum Op {
    Write(i64, Vec<u8>),
    Trunc(i64),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Err,
    Short,
    Eintr,
    Zero,
    Script,
}

#[derive(Clone)]
pub struct Fault {
    pub class: usize, // 0 read, 1 write, 2 seek, 3 resize
    pub n: u64,       // which call of the class (1-based), 0: all; script: how many calls come before
    pub mode: Mode,
    pub errno: c_int,
    pub len: usize,
    pub sticky: bool,
    pub script: Vec<(String, i64)>,
}

pub enum Act {
    Go,
    Fail(c_int),
    Limit(usize),
    Zero,
}

/// What becomes of the next call of a class.
pub fn decide(fault: &Option<Fault>, counts: &mut [u64; 4], fired: &mut u64, class: usize) -> Act {
    counts[class] += 1;
    let c = counts[class];
    let f = match fault {
        Some(f) if f.class == class => f,
        _ => return Act::Go,
    };
    if f.mode == Mode::Script {
        if c <= f.n {
            return Act::Go;
        }
        return match f.script.get((c - f.n - 1) as usize) {
            None => Act::Go,
            Some((k, n)) => match k.as_str() {
                "part" => Act::Limit((*n).max(1) as usize),
                "eintr" => Act::Fail(EINTR),
                "err" => {
                    *fired += 1;
                    Act::Fail(*n as c_int)
                }
                "zero" => {
                    *fired += 1;
                    Act::Zero
                }
                _ => Act::Go,
            },
        };
    }
    let hit = f.n == 0 || c == f.n || (f.sticky && c > f.n);
    match f.mode {
        Mode::Err if hit => {
            *fired += 1;
            Act::Fail(f.errno)
        }
        Mode::Zero if hit => {
            *fired += 1;
            Act::Zero
        }
        Mode::Short if hit => Act::Limit(f.len.max(1)),
        Mode::Eintr if c % 2 == 1 && hit => Act::Fail(EINTR),
        _ => Act::Go,
    }
}

#[derive(Default)]
pub struct State {
    pub active: bool,
    pub log: bool,
    pub ops: Vec<Op>,
    pub counts: [u64; 4],
    pub fault: Option<Fault>,
    pub fired: u64,
    pub sparse: bool, // many zeros are written as holes
    pub target: (u64, u64), // the file whose changes are recorded (device, inode)
}

pub static mut ST: State =
    State { active: false, sparse: false, target: (0, 0), log: false, ops: Vec::new(), counts: [0; 4], fault: None, fired: 0 };

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_LSEEK: c_long = 8;
const SYS_PREAD: c_long = 17;
const SYS_PWRITE: c_long = 18;
const SYS_FSTAT: c_long = 5;
const SYS_FTRUNCATE: c_long = 77;
const SYS_FALLOCATE: c_long = 285;
pub const EINTR: c_int = 4;

unsafe fn act(class: usize, fd: c_int) -> Act {
    if !ST.active || fd < 3 {
        return Act::Go;
    }
    decide(&ST.fault, &mut ST.counts, &mut ST.fired, class)
}

unsafe fn fail(e: c_int) -> isize {
    *__errno_location() = e;
    -1
}

/// Whether changes of the file are to be recorded.
unsafe fn logged(fd: c_int) -> bool {
    if !ST.active || !ST.log || fd < 3 {
        return false;
    }
    let mut st = [0u64; 32];
    syscall(SYS_FSTAT, fd as c_long, st.as_mut_ptr()) == 0 && (st[0], st[1]) == ST.target
}

unsafe fn record(fd: c_int, at: Option<i64>, buf: *const c_void, n: isize) {
    if n > 0 && logged(fd) {
        let pos = match at {
            Some(p) => p,
            None => syscall(SYS_LSEEK, fd as c_long, 0 as c_long, 1 as c_long) as i64 - n as i64,
        };
        let b = std::slice::from_raw_parts(buf as *const u8, n as usize).to_vec();
        ST.ops.push(Op::Write(pos, b));
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    match act(0, fd) {
        Act::Fail(e) => fail(e),
        Act::Limit(l) => syscall(SYS_READ, fd as c_long, buf, n.min(l)) as isize,
        Act::Zero => 0,
        Act::Go => syscall(SYS_READ, fd as c_long, buf, n) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    match act(0, fd) {
        Act::Fail(e) => fail(e),
        Act::Limit(l) => syscall(SYS_PREAD, fd as c_long, buf, n.min(l), off) as isize,
        Act::Zero => 0,
        Act::Go => syscall(SYS_PREAD, fd as c_long, buf, n, off) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let r = match act(1, fd) {
        Act::Fail(e) => return fail(e),
        Act::Zero => return 0,
        Act::Limit(l) => syscall(SYS_WRITE, fd as c_long, buf, n.min(l)) as isize,
        Act::Go if ST.active && ST.sparse && fd >= 3 && n >= BLOCK => sparse_write(fd, buf, n),
        Act::Go => syscall(SYS_WRITE, fd as c_long, buf, n) as isize,
    };
    record(fd, None, buf, r);
    r
}

pub const BLOCK: usize = 1 << 20;
pub static ZEROS: [u8; BLOCK] = [0; BLOCK];

/// Writes like `write`, except that blocks of zeros become holes of the file.
unsafe fn sparse_write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let n = n.min(0x7fff_f000);
    let d = std::slice::from_raw_parts(buf as *const u8, n);
    let pos = syscall(SYS_LSEEK, fd as c_long, 0 as c_long, 1 as c_long) as i64;
    let size = syscall(SYS_LSEEK, fd as c_long, 0 as c_long, 2 as c_long) as i64;
    syscall(SYS_LSEEK, fd as c_long, pos, 0 as c_long);
    if pos < 0 || size < 0 {
        return syscall(SYS_WRITE, fd as c_long, buf, n) as isize;
    }
    if pos + n as i64 > size {
        let r = syscall(SYS_FTRUNCATE, fd as c_long, pos + n as i64);
        if r != 0 {
            return r as isize;
        }
    }
    for (i, c) in d.chunks(BLOCK).enumerate() {
        let at = pos + (i * BLOCK) as i64;
        if *c == ZEROS[..c.len()] {
            if at >= size {
                continue; // already a hole
            }
            if syscall(SYS_FALLOCATE, fd as c_long, 3 as c_long, at, c.len() as c_long) == 0 {
                continue;
            }
        }
        let mut k = 0;
        while k < c.len() {
            let r = syscall(SYS_PWRITE, fd as c_long, c[k..].as_ptr(), c.len() - k, at + k as i64);
            if r <= 0 {
                return r as isize;
            }
            k += r as usize;
        }
    }
    syscall(SYS_LSEEK, fd as c_long, pos + n as i64, 0 as c_long);
    n as isize
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let r = match act(1, fd) {
        Act::Fail(e) => return fail(e),
        Act::Zero => return 0,
        Act::Limit(l) => syscall(SYS_PWRITE, fd as c_long, buf, n.min(l), off) as isize,
        Act::Go => syscall(SYS_PWRITE, fd as c_long, buf, n, off) as isize,
    };
    record(fd, Some(off), buf, r);
    r
}

#[repr(C)]
pub struct IoVec {
    base: *mut c_void,
    len: usize,
}

/// Vectored calls transfer the first non-empty buffer only (a short transfer, which is allowed).
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    for i in 0..n as usize {
        let e = &*v.add(i);
        if e.len > 0 {
            return write(fd, e.base, e.len);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    for i in 0..n as usize {
        let e = &*v.add(i);
        if e.len > 0 {
            return read(fd, e.base, e.len);
        }
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match act(2, fd) {
        Act::Fail(e) if e != EINTR => fail(e) as i64,
        _ => syscall(SYS_LSEEK, fd as c_long, off, whence as c_long),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match act(3, fd) {
        Act::Fail(e) => fail(e) as c_int,
        _ => {
            let r = syscall(SYS_FTRUNCATE, fd as c_long, len) as c_int;
            if r == 0 && logged(fd) {
                ST.ops.push(Op::Trunc(len));
            }
            r
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}

// Copying inside the kernel falls back to reads and writes.
unsafe fn unsupported() -> isize {
    fail(38)
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    _i: c_int,
    _io: *mut i64,
    _o: c_int,
    _oo: *mut i64,
    _n: usize,
    _f: u32,
) -> isize {
    unsupported()
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(_o: c_int, _i: c_int, _off: *mut i64, _n: usize) -> isize {
    unsupported()
}

#[no_mangle]
pub unsafe extern "C" fn sendfile(_o: c_int, _i: c_int, _off: *mut i64, _n: usize) -> isize {
    unsupported()
}

#[no_mangle]
pub unsafe extern "C" fn splice(
    _i: c_int,
    _io: *mut i64,
    _o: c_int,
    _oo: *mut i64,
    _n: usize,
    _f: u32,
) -> isize {
    unsupported()
}

unsafe fn find(f: &std::fs::File, pos: u64, whence: c_long) -> Option<u64> {
    use std::os::unix::io::AsRawFd;
    let p = syscall(SYS_LSEEK, f.as_raw_fd() as c_long, pos as c_long, whence);
    if p < 0 {
        None
    } else {
        Some(p as u64)
    }
}

/// Makes a hole.
pub fn punch(f: &std::fs::File, pos: i64, n: i64) -> bool {
    use std::os::unix::io::AsRawFd;
    unsafe { syscall(SYS_FALLOCATE, f.as_raw_fd() as c_long, 3 as c_long, pos, n) == 0 }
}

/// Where the next bytes of a sparse file are that aren't a hole.
pub fn next_data(f: &std::fs::File, pos: u64) -> Option<u64> {
    unsafe { find(f, pos, 3) }
}

/// Where the next hole of a sparse file is.
pub fn next_hole(f: &std::fs::File, pos: u64) -> Option<u64> {
    unsafe { find(f, pos, 4) }
}
