//! The operating system `exec` runs on: files, pipes, and one child process.
//! These functions replace libc's, both in the symbolically executed module
//! and (by link order) in the native replay binary, where descriptors below
//! 1000 are the real ones and are passed on to the kernel.
#![allow(static_mut_refs, unknown_lints, unreachable_code, unused_unsafe, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use crate::sym;
use std::ffi::{c_char, c_int, c_long, c_short, c_uint, c_void};

pub const EINTR: u8 = 4;
pub const EAGAIN: i32 = 11;
pub const EEXIST: u8 = 17;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Null,
    File(usize),
    PipeR(usize),
    PipeW(usize),
    /// ... and how many entries were listed
    Dir(usize),
}
pub struct Fd {
    pub kind: Kind,
    pub open: bool,
    pub pos: usize,
    pub writable: bool,
}
pub struct File {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
    pub linked: bool,
    pub unlink_tried: bool,
    pub pre: bool,
    pub dir: bool,
}
#[derive(Default)]
pub struct Pipe {
    pub data: Vec<u8>,
    pub split: usize,
    pub avail: usize,
    pub pos: usize,
    pub eof: bool,
    pub nonblock: bool,
    pub child_writes: bool,
}
pub struct Spawn {
    pub prog: Vec<u8>,
    pub argv: Vec<Vec<u8>>,
    /// what the last argument named, when the child started
    pub at_start: Option<Vec<u8>>,
    /// ... and when it was waited for
    pub at_end: Option<Vec<u8>>,
    pub at_end_unlinked: bool,
    pub env_ok: bool,
    pub waited: bool,
    pub wait_tried: bool,
    pub out: Option<usize>,
    pub err: Option<usize>,
}
#[derive(Default)]
pub struct Os {
    pub active: bool,
    pub fds: Vec<Fd>,
    pub files: Vec<File>,
    pub pipes: Vec<Pipe>,
    pub spawns: Vec<Spawn>,
    pub dups: Vec<(c_int, c_int)>,
    pub chdir: bool,
    /// variables set (with a NUL at the end) and removed by the process itself
    pub env: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    /// what the child will do
    pub child_out: Vec<u8>,
    pub child_err: Vec<u8>,
    pub split_out: usize,
    pub split_err: usize,
    pub status: c_int,
    pub schedule: bool,
    /// the calls that fail, by position; 255: none
    pub faults: Vec<u8>,
    pub calls: u8,
    /// errno of faults after which the call's purpose is not achieved
    pub hard: Vec<u8>,
    pub hard_calls: Vec<&'static str>,
    pub tmpdir: Option<Vec<u8>>,
}
static mut OS: Option<Os> = None;

pub fn os() -> &'static mut Os {
    unsafe {
        if OS.is_none() {
            OS = Some(Os::default())
        }
        OS.as_mut().unwrap()
    }
}
/// A fresh system; every call is modelled until `stop`.
pub fn start(o: Os) {
    unsafe {
        OS = Some(o);
        OS.as_mut().unwrap().active = true;
    }
}
pub fn stop() {
    os().active = false
}
fn on() -> bool {
    unsafe { OS.as_ref().map_or(false, |o| o.active) }
}

#[cfg(not(feature = "replay"))]
static mut ERRNO: c_int = 0;
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub extern "C" fn __errno_location() -> *mut c_int {
    unsafe { &raw mut ERRNO }
}
#[cfg(feature = "replay")]
extern "C" {
    fn __errno_location() -> *mut c_int;
}
fn fail(e: c_int) -> c_int {
    unsafe { *__errno_location() = e }
    -1
}

#[cfg(feature = "replay")]
macro_rules! real {
    ($n:expr, $($a:expr),* $(,)?) => {{
        extern "C" { fn syscall(n: c_long, ...) -> c_long; }
        #[allow(unused_unsafe)]
        unsafe { syscall($n as c_long, $($a as c_long),*) as _ }
    }};
}
#[cfg(not(feature = "replay"))]
macro_rules! real {
    ($n:expr, $($a:expr),* $(,)?) => {{
        $( let _ = $a; )*
        sym::fail("a system call outside the model")
    }};
}

/// Decides whether this call fails, and with which errno (0: a short count).
fn fault(name: &'static str, short: bool) -> Option<u8> {
    let o = os();
    let k = o.calls;
    o.calls = o.calls.saturating_add(1);
    if o.faults.iter().all(|f| *f != k) {
        return None;
    }
    let mut e = [0u8];
    sym::bytes(&mut e);
    sym::assume(e[0] <= 133 && (short || e[0] != 0));
    if e[0] != 0 && e[0] != EINTR {
        o.hard.push(e[0]);
        o.hard_calls.push(name);
    }
    Some(e[0])
}
/// A call that reports faults by its return value.
fn fault_nz(name: &'static str) -> c_int {
    let o = os();
    let k = o.calls;
    o.calls = o.calls.saturating_add(1);
    if o.faults.iter().all(|f| *f != k) {
        return 0;
    }
    let mut e = [0u8];
    sym::bytes(&mut e);
    sym::assume(e[0] <= 133 && e[0] != 0);
    o.hard.push(e[0]);
    o.hard_calls.push(name);
    e[0] as c_int
}
fn new_fd(kind: Kind) -> c_int {
    let o = os();
    o.fds.push(Fd { kind, open: true, pos: 0, writable: true });
    1000 + o.fds.len() as c_int - 1
}
fn fd(n: c_int) -> Option<&'static mut Fd> {
    if n < 1000 {
        return None;
    }
    let o = os();
    let f = o.fds.get_mut(n as usize - 1000)?;
    if f.open {
        Some(f)
    } else {
        None
    }
}
unsafe fn cstr(p: *const c_char) -> Vec<u8> {
    let mut v = vec![];
    let mut p = p as *const u8;
    while *p != 0 {
        v.push(*p);
        p = p.add(1);
    }
    v
}
fn find(path: &[u8]) -> Option<usize> {
    os().files.iter().position(|f| f.linked && f.path == path)
}

const O_WRONLY: c_int = 1;
const O_RDWR: c_int = 2;
const O_CREAT: c_int = 0o100;
const O_EXCL: c_int = 0o200;
const O_TRUNC: c_int = 0o1000;
const O_APPEND: c_int = 0o2000;

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !on() {
        return real!(2, path, flags, mode);
    }
    let p = cstr(path);
    if p == b"/dev/null" {
        return match fault("open /dev/null", false) {
            Some(e) => fail(e as c_int),
            None => new_fd(Kind::Null),
        };
    }
    let old = find(&p);
    if let Some(e) = fault("open", false) {
        sym::assume(e != 98); // EADDRINUSE concerns sockets
        if let Some(i) = old {
            if os().files[i].dir {
                // opened to empty it
                sym::assume(e != 2 && e != 20);
                let q = os().files[i].path.clone();
                for f in &mut os().files {
                    f.unlink_tried |= f.path.starts_with(&q)
                }
            }
        }
        if e == EEXIST && flags & O_EXCL != 0 {
            // somebody else's file has that name: the next one is tried
            os().hard.pop();
            os().hard_calls.pop();
        }
        return fail(e as c_int);
    }
    let i = match old {
        Some(_) if flags & O_EXCL != 0 => return fail(17),
        Some(i) => i,
        None if flags & O_CREAT == 0 => return fail(2),
        None => {
            os().files.push(File { path: p, data: vec![], linked: true, unlink_tried: false, pre: false, dir: false });
            os().files.len() - 1
        }
    };
    if os().files[i].dir {
        return if flags & 3 == 0 { new_fd(Kind::Dir(i)) } else { fail(21) };
    }
    if flags & O_TRUNC != 0 {
        os().files[i].data.clear()
    }
    let n = new_fd(Kind::File(i));
    let f = fd(n).unwrap();
    f.writable = flags & 3 == O_WRONLY || flags & 3 == O_RDWR;
    if flags & O_APPEND != 0 {
        f.pos = os().files[i].data.len()
    }
    n
}
#[no_mangle]
pub unsafe extern "C" fn write(n: c_int, buf: *const c_void, len: usize) -> isize {
    if !on() || n < 1000 {
        return if on() && (n == 1 || n == 2) { len as isize } else { real!(1, n, buf, len) };
    }
    let Some(f) = fd(n) else { return fail(9) as isize };
    let mut len = len;
    match fault("write", true) {
        Some(0) => {
            if len == 0 {
                return 0;
            }
            let mut k = [0u8];
            sym::bytes(&mut k);
            sym::assume((k[0] as usize) < len);
            if k[0] == 0 {
                os().hard.push(0);
                os().hard_calls.push("write");
            }
            len = k[0] as usize;
        }
        Some(e) => return fail(e as c_int) as isize,
        None => {}
    }
    let b = std::slice::from_raw_parts(buf as *const u8, len);
    match f.kind {
        Kind::File(i) if f.writable => {
            let d = &mut os().files[i].data;
            while d.len() < f.pos {
                d.push(0)
            }
            for (j, x) in b.iter().enumerate() {
                if f.pos + j < d.len() {
                    d[f.pos + j] = *x
                } else {
                    d.push(*x)
                }
            }
            f.pos += len;
            len as isize
        }
        Kind::PipeW(_) | Kind::Null => len as isize,
        _ => fail(9) as isize,
    }
}

#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(n: c_int, v: *const IoVec, k: c_int) -> isize {
    if !on() || n < 1000 {
        if !on() || n != 1 && n != 2 {
            return real!(20, n, v, k);
        }
    }
    for i in 0..k as usize {
        let x = &*v.add(i);
        if x.len > 0 && n < 1000 {
            return x.len as isize;
        }
        if x.len > 0 {
            return write(n, x.base, x.len);
        }
    }
    0
}

fn advance(p: &mut Pipe) {
    if p.avail < p.data.len() {
        p.avail = if p.avail < p.split { p.split } else { p.data.len() };
    } else {
        p.eof = true
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(n: c_int, buf: *mut c_void, len: usize) -> isize {
    if !on() || n < 1000 {
        return real!(0, n, buf, len);
    }
    let Some(f) = fd(n) else { return fail(9) as isize };
    let src: &[u8] = match f.kind {
        Kind::Null => &[],
        Kind::File(i) => {
            let d = &os().files[i].data;
            &d[f.pos.min(d.len())..]
        }
        Kind::PipeR(p) => {
            let o = os();
            if o.fds.iter().any(|f| f.open && f.kind == Kind::PipeW(p)) {
                sym::fail("the reader keeps the writing end of the pipe open and waits for ever")
            }
            let p = &mut o.pipes[p];
            if p.pos == p.avail && !p.eof {
                if p.nonblock {
                    return fail(EAGAIN) as isize;
                }
                while p.pos == p.avail && !p.eof {
                    advance(p)
                }
            }
            &p.data[p.pos..p.avail]
        }
        Kind::PipeW(_) => return fail(9) as isize,
        Kind::Dir(_) => return fail(21) as isize,
    };
    let m = src.len().min(len);
    std::ptr::copy_nonoverlapping(src.as_ptr(), buf as *mut u8, m);
    match f.kind {
        Kind::PipeR(p) => os().pipes[p].pos += m,
        _ => f.pos += m,
    }
    m as isize
}

#[no_mangle]
pub extern "C" fn close(n: c_int) -> c_int {
    if !on() || n < 1000 {
        return real!(3, n,);
    }
    match fd(n) {
        None => sym::fail("a descriptor is closed twice"),
        Some(f) => f.open = false,
    }
    0
}

#[repr(C)]
pub struct PollFd {
    fd: c_int,
    events: c_short,
    revents: c_short,
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut PollFd, n: u64, timeout: c_int) -> c_int {
    if !on() {
        return real!(7, fds, n, timeout);
    }
    let fds = std::slice::from_raw_parts_mut(fds, n as usize);
    let mut pipes = vec![];
    for x in fds.iter() {
        match fd(x.fd).map(|f| f.kind) {
            Some(Kind::PipeR(p)) => pipes.push(p),
            _ => return fail(9),
        }
    }
    let o = os();
    // which of them has news: all of them, or (when the schedule is open) any one
    let pend: Vec<usize> = (0..pipes.len()).filter(|i| !o.pipes[pipes[*i]].eof).collect();
    let who = if o.schedule && pend.len() > 1 { sym::pick(pend.len() + 1) } else { 0 };
    for (j, i) in pend.iter().enumerate() {
        if who == 0 || who - 1 == j {
            advance(&mut o.pipes[pipes[*i]])
        }
    }
    let mut k = 0;
    for (x, p) in fds.iter_mut().zip(&pipes) {
        let p = &o.pipes[*p];
        x.revents = if p.avail > p.pos { 1 } else if p.eof { 0x10 } else { 0 };
        if x.revents != 0 {
            k += 1
        }
    }
    k
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(n: c_int, req: u64, arg: *mut c_int) -> c_int {
    if !on() || n < 1000 {
        return real!(16, n, req, arg);
    }
    match fd(n).map(|f| f.kind) {
        Some(Kind::PipeR(p)) if req == 0x5421 => {
            os().pipes[p].nonblock = *arg != 0;
            0
        }
        _ => fail(25),
    }
}
#[no_mangle]
pub extern "C" fn fcntl(n: c_int, cmd: c_int, arg: c_long) -> c_int {
    if !on() || n < 1000 {
        return real!(72, n, cmd, arg);
    }
    match (fd(n).map(|f| f.kind), cmd) {
        (None, _) => fail(9),
        (Some(Kind::PipeR(p)), 4) => {
            os().pipes[p].nonblock = arg & 0o4000 != 0;
            0
        }
        (Some(k), 0 | 1030) => new_fd(k),
        _ => 0,
    }
}
#[no_mangle]
pub extern "C" fn lseek64(n: c_int, off: i64, whence: c_int) -> i64 {
    if !on() || n < 1000 {
        return real!(8, n, off, whence);
    }
    match fd(n) {
        Some(f) => {
            let Kind::File(i) = f.kind else { return fail(29) as i64 };
            let base = match whence {
                0 => 0,
                1 => f.pos as i64,
                _ => os().files[i].data.len() as i64,
            };
            f.pos = (base + off) as usize;
            f.pos as i64
        }
        None => fail(9) as i64,
    }
}
#[no_mangle]
pub extern "C" fn fsync(n: c_int) -> c_int {
    if !on() || n < 1000 {
        return real!(74, n,);
    }
    if fd(n).is_some() {
        0
    } else {
        fail(9)
    }
}
#[no_mangle]
pub extern "C" fn fdatasync(n: c_int) -> c_int {
    fsync(n)
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, flags: c_int) -> c_int {
    if !on() {
        return real!(293, p, flags);
    }
    if let Some(e) = fault("pipe2", false) {
        sym::assume(e != EINTR); // pipe2 does not wait
        return fail(e as c_int);
    }
    let o = os();
    o.pipes.push(Pipe::default());
    let k = o.pipes.len() - 1;
    *p = new_fd(Kind::PipeR(k));
    *p.add(1) = new_fd(Kind::PipeW(k));
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if !on() {
        return real!(87, path,);
    }
    let p = cstr(path);
    let i = find(&p);
    if let Some(i) = i {
        os().files[i].unlink_tried = true
    }
    if let Some(e) = fault("unlink", false) {
        sym::assume(e != 2); // the file is there
        // the directory that holds it cannot be removed either
        for f in &mut os().files {
            if f.dir && p.starts_with(&f.path) {
                f.unlink_tried = true
            }
        }
        if e == EINTR {
            os().hard.push(e);
            os().hard_calls.push("unlink");
        }
        return fail(e as c_int);
    }
    match i {
        Some(i) => {
            os().files[i].linked = false;
            0
        }
        None => fail(2),
    }
}

/// What a path or descriptor names, in the layout of statx. These calls do not fail by fault.
unsafe fn stat(which: Option<usize>, null: bool, b: *mut u8) -> c_int {
    std::ptr::write_bytes(b, 0, 256);
    let (mode, size) = match which {
        Some(i) if os().files[i].dir => (0o040700u16, 4096),
        Some(i) => (0o100600, os().files[i].data.len()),
        None if null => (0o020666, 0),
        None => return fail(2),
    };
    *(b as *mut u32) = 0x7ff;
    *(b.add(4) as *mut u32) = 4096;
    *(b.add(16) as *mut u32) = 1;
    *(b.add(28) as *mut u16) = mode;
    *(b.add(32) as *mut u64) = which.map_or(1, |i| i as u64 + 100);
    *(b.add(40) as *mut u64) = size as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut u8) -> c_int {
    if !on() {
        return real!(332, d, path, flags, mask, buf);
    }
    let p = cstr(path);
    if p.is_empty() {
        return match fd(d).map(|f| f.kind) {
            Some(Kind::File(i) | Kind::Dir(i)) => stat(Some(i), false, buf),
            Some(_) => stat(None, true, buf),
            None => fail(9),
        };
    }
    stat(find(&at(d, p.clone())), p == b"/dev/null", buf)
}
/// A path relative to a directory's descriptor.
fn at(d: c_int, p: Vec<u8>) -> Vec<u8> {
    match fd(d).map(|f| f.kind) {
        Some(Kind::Dir(i)) if p[0] != b'/' => {
            let mut q = os().files[i].path.clone();
            q.push(b'/');
            q.extend(p);
            q
        }
        _ => p,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if !on() {
        return real!(257, d, path, flags, mode);
    }
    let mut p = at(d, cstr(path));
    p.push(0);
    open64(p.as_ptr() as *const c_char, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    if !on() {
        return real!(263, d, path, flags);
    }
    let mut p = at(d, cstr(path));
    p.push(0);
    if flags & 0x200 != 0 {
        rmdir(p.as_ptr() as *const c_char)
    } else {
        unlink(p.as_ptr() as *const c_char)
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    if !on() {
        return real!(83, path, mode);
    }
    let p = cstr(path);
    if let Some(e) = fault("mkdir", false) {
        sym::assume(e != 98 && e != EINTR);
        if e == EEXIST {
            os().hard.pop();
            os().hard_calls.pop();
        }
        return fail(e as c_int);
    }
    if find(&p).is_some() {
        return fail(17);
    }
    os().files.push(File { path: p, data: vec![], linked: true, unlink_tried: false, pre: false, dir: true });
    0
}
fn entry(i: usize, k: usize) -> Option<Vec<u8>> {
    let mut p = os().files[i].path.clone();
    p.push(b'/');
    os().files.iter().filter(|f| f.linked && f.path.starts_with(&p)).nth(k).map(|f| f.path[p.len()..].to_vec())
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    if !on() {
        return real!(84, path,);
    }
    let i = find(&cstr(path));
    if let Some(i) = i {
        os().files[i].unlink_tried = true
    }
    if let Some(e) = fault("rmdir", false) {
        sym::assume(e != 2 && e != EINTR);
        return fail(e as c_int);
    }
    match i {
        Some(i) if entry(i, 0).is_some() => fail(39),
        Some(i) if os().files[i].dir => {
            os().files[i].linked = false;
            0
        }
        Some(_) => fail(20),
        None => fail(2),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if !on() {
        return real!(82, a, b);
    }
    let (p, q) = (cstr(a), cstr(b));
    if let Some(e) = fault("rename", false) {
        return fail(e as c_int);
    }
    let Some(i) = find(&p) else { return fail(2) };
    if let Some(j) = find(&q) {
        os().files[j].linked = false
    }
    os().files[i].path = q;
    0
}
#[no_mangle]
pub extern "C" fn ftruncate64(n: c_int, len: i64) -> c_int {
    if !on() || n < 1000 {
        return real!(77, n, len);
    }
    match fd(n).map(|f| f.kind) {
        Some(Kind::File(i)) => {
            os().files[i].data.resize(len as usize, 0);
            0
        }
        _ => fail(22),
    }
}
#[no_mangle]
pub extern "C" fn fchmod(n: c_int, mode: c_uint) -> c_int {
    if !on() || n < 1000 {
        return real!(91, n, mode);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: c_uint) -> c_int {
    if !on() {
        return real!(90, path, mode);
    }
    if find(&cstr(path)).is_some() {
        0
    } else {
        fail(2)
    }
}
#[no_mangle]
pub extern "C" fn getpid() -> c_int {
    if !on() {
        return real!(39,);
    }
    4242
}
/// Sleeping takes no time.
#[no_mangle]
pub extern "C" fn nanosleep(a: *const c_void, b: *mut c_void) -> c_int {
    if !on() {
        return real!(35, a, b);
    }
    0
}
#[no_mangle]
pub extern "C" fn clock_nanosleep(c: c_int, f: c_int, a: *const c_void, b: *mut c_void) -> c_int {
    if !on() {
        return real!(230, c, f, a, b);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    if !on() {
        #[cfg(feature = "replay")]
        {
            let k: c_long = real!(79, b, n);
            return if k < 0 { std::ptr::null_mut() } else { b };
        }
    }
    if n < 3 {
        fail(34);
        return std::ptr::null_mut();
    }
    for (i, c) in b"/w\0".iter().enumerate() {
        *b.add(i) = *c as c_char
    }
    b
}
static mut DIRENT: [u64; 40] = [0; 40];
#[no_mangle]
pub extern "C" fn fdopendir(n: c_int) -> *mut c_void {
    n as usize as *mut c_void
}
#[no_mangle]
pub extern "C" fn dirfd(d: *mut c_void) -> c_int {
    d as usize as c_int
}
#[no_mangle]
pub extern "C" fn closedir(d: *mut c_void) -> c_int {
    close(d as usize as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    // only ever used to empty a directory: the first entry that is left
    let Some(Kind::Dir(i)) = fd(d as usize as c_int).map(|f| f.kind) else { return std::ptr::null_mut() };
    let Some(name) = entry(i, 0) else { return std::ptr::null_mut() };
    let b = &raw mut DIRENT as *mut u8;
    std::ptr::write_bytes(b, 0, 320);
    *b.add(16) = 64;
    *b.add(18) = 8;
    std::ptr::copy_nonoverlapping(name.as_ptr(), b.add(19), name.len());
    b as *mut c_void
}

#[no_mangle]
pub extern "C" fn posix_spawnattr_init(_: *mut c_void) -> c_int {
    fault_nz("posix_spawnattr_init")
}
#[no_mangle]
pub extern "C" fn posix_spawnattr_destroy(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn posix_spawnattr_setflags(_: *mut c_void, _: c_short) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn posix_spawnattr_setpgroup(_: *mut c_void, _: c_int) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn posix_spawnattr_setsigdefault(_: *mut c_void, _: *const c_void) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn posix_spawn_file_actions_init(_: *mut c_void) -> c_int {
    os().dups.clear();
    os().chdir = false;
    fault_nz("posix_spawn_file_actions_init")
}
#[no_mangle]
pub extern "C" fn posix_spawn_file_actions_destroy(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn posix_spawn_file_actions_adddup2(_: *mut c_void, a: c_int, b: c_int) -> c_int {
    let e = fault_nz("posix_spawn_file_actions_adddup2");
    if e == 0 {
        os().dups.push((a, b))
    }
    e
}
#[no_mangle]
pub extern "C" fn posix_spawn_file_actions_addchdir_np(_: *mut c_void, _: *const c_char) -> c_int {
    os().chdir = true;
    0
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub extern "C" fn sigemptyset(_: *mut c_void) -> c_int {
    0
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub extern "C" fn sigaddset(_: *mut c_void, _: c_int) -> c_int {
    0
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub extern "C" fn gnu_get_libc_version() -> *const c_char {
    b"2.39\0".as_ptr() as *const c_char
}
#[cfg(not(feature = "replay"))]
#[repr(transparent)]
pub struct Env([*const u8; 3]);
#[cfg(not(feature = "replay"))]
unsafe impl Sync for Env {}
#[cfg(not(feature = "replay"))]
static ENV: Env = Env([b"PATH=/bin\0".as_ptr(), b"HOME=/h\0".as_ptr(), std::ptr::null()]);
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub static mut environ: *const *const u8 = &raw const ENV as *const *const u8;
#[cfg(feature = "replay")]
extern "C" {
    static mut environ: *const *const u8;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    let n = cstr(name);
    if on() {
        if let Some((_, v)) = os().env.iter().rev().find(|x| x.0 == n) {
            return match v { Some(v) => v.as_ptr() as *const c_char, None => std::ptr::null() };
        }
        return match &os().tmpdir {
            Some(v) if n == b"TMPDIR" => v.as_ptr() as *const c_char,
            _ if n == b"HOME" => b"/h\0".as_ptr() as *const c_char,
            _ if n == b"PATH" => b"/bin\0".as_ptr() as *const c_char,
            _ => std::ptr::null(),
        };
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let x = cstr(*e as *const c_char);
        if x.len() > n.len() && x[..n.len()] == n[..] && x[n.len()] == b'=' {
            return (*e as *const c_char).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(pid: *mut c_int, prog: *const c_char, _: *const c_void, _: *const c_void, argv: *const *const c_char, envp: *const *const u8) -> c_int {
    let e = fault_nz("posix_spawnp");
    if e != 0 {
        return e;
    }
    let mut v = vec![];
    let mut a = argv;
    while !(*a).is_null() {
        v.push(cstr(*a));
        a = a.add(1);
    }
    let mut env_ok = true;
    if envp != environ {
        let mut e = environ;
        while !(*e).is_null() {
            let want = cstr(*e as *const c_char);
            let mut c = envp;
            let mut any = false;
            while !(*c).is_null() {
                any |= cstr(*c as *const c_char) == want;
                c = c.add(1);
            }
            env_ok &= any;
            e = e.add(1);
        }
        // ... and nothing is added
        let count = |mut e: *const *const u8| { let mut n = 0; while !(*e).is_null() { n += 1; e = e.add(1) } n };
        env_ok &= count(envp) == count(environ);
    }
    for (n, v) in &os().env {
        let last = os().env.iter().rev().find(|x| x.0 == *n).unwrap();
        let base = match &n[..] { b"HOME" => Some(b"/h\0".to_vec()), b"PATH" => Some(b"/bin\0".to_vec()), b"TMPDIR" => os().tmpdir.clone(), _ => None };
        let _ = v;
        env_ok &= last.1 == base;
    }
    let o = os();
    let mut ends = [None, None];
    for (a, b) in &o.dups {
        if let (Some(Fd { kind: Kind::PipeW(p), .. }), 1..=2) = (o.fds.get((*a - 1000) as usize), *b) {
            ends[*b as usize - 1] = Some(*p)
        }
    }
    let (data, split) = (o.child_out.clone(), o.split_out);
    if let Some(p) = ends[0] {
        o.pipes[p].data.extend_from_slice(&data);
        o.pipes[p].split = split;
        o.pipes[p].child_writes = true;
    }
    let (data, split) = (o.child_err.clone(), o.split_err);
    if let Some(p) = ends[1] {
        o.pipes[p].data.extend_from_slice(&data);
        o.pipes[p].split = split;
        o.pipes[p].child_writes = true;
    }
    let at_start = v.last().and_then(|p| find(p)).map(|i| o.files[i].data.clone());
    o.spawns.push(Spawn { prog: cstr(prog), argv: v, at_start, at_end: None, at_end_unlinked: false, env_ok: env_ok && !o.chdir, waited: false, wait_tried: false, out: ends[0], err: ends[1] });
    *pid = 5000 + o.spawns.len() as c_int - 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, status: *mut c_int, flags: c_int) -> c_int {
    if !on() {
        return real!(61, pid, status, flags, 0);
    }
    let o = os();
    let k = (pid - 5000) as usize;
    if pid < 5000 || k >= o.spawns.len() || o.spawns[k].waited {
        return fail(10);
    }
    o.spawns[k].wait_tried = true;
    // a child that still has output blocks until it is read
    for p in [o.spawns[k].out, o.spawns[k].err].into_iter().flatten() {
        let readable = o.fds.iter().any(|f| f.open && f.kind == Kind::PipeR(p));
        if readable && o.pipes[p].pos < o.pipes[p].data.len() {
            sym::fail("the child is waited for while its output is unread")
        }
    }
    if let Some(e) = fault("waitpid", false) {
        return fail(e as c_int);
    }
    let path = o.spawns[k].argv.last().cloned().unwrap_or_default();
    let cont = find(&path).map(|i| o.files[i].data.clone());
    let s = &mut o.spawns[k];
    s.at_end = cont;
    s.waited = true;
    *status = o.status;
    pid
}
#[no_mangle]
pub extern "C" fn kill(pid: c_int, sig: c_int) -> c_int {
    if !on() {
        return real!(62, pid, sig);
    }
    0
}
/// A fixed clock; it only seeds the random part of temporary names.
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: c_int, t: *mut [i64; 2]) -> c_int {
    *t = [1_700_000_000, 123_456_789];
    0
}
#[cfg(not(feature = "replay"))]
static mut TLS: [*const c_void; 8] = [std::ptr::null(); 8];
#[cfg(not(feature = "replay"))]
static mut KEYS: c_uint = 1;
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub unsafe extern "C" fn pthread_key_create(k: *mut c_uint, _: *const c_void) -> c_int {
    *k = KEYS;
    KEYS += 1;
    0
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub extern "C" fn pthread_key_delete(_: c_uint) -> c_int {
    0
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub unsafe extern "C" fn pthread_setspecific(k: c_uint, v: *const c_void) -> c_int {
    TLS[k as usize] = v;
    0
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub unsafe extern "C" fn pthread_getspecific(k: c_uint) -> *const c_void {
    TLS[k as usize]
}

/// The text of an error number: "error N".
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(e: c_int, buf: *mut c_char, len: usize) -> c_int {
    let t = [b'e', b'r', b'r', b'o', b'r', b' ', b'0' + (e / 100 % 10) as u8, b'0' + (e / 10 % 10) as u8, b'0' + (e % 10) as u8, 0];
    if len < t.len() {
        return 34;
    }
    for (i, c) in t.iter().enumerate() {
        *buf.add(i) = *c as c_char
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn setenv(name: *const c_char, value: *const c_char, _: c_int) -> c_int {
    if !on() {
        return fail(38);
    }
    let mut v = cstr(value);
    v.push(0);
    os().env.push((cstr(name), Some(v)));
    0
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(name: *const c_char) -> c_int {
    if !on() {
        return fail(38);
    }
    os().env.push((cstr(name), None));
    0
}
/// The process starts in /w.
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    if !on() {
        return fail(38);
    }
    os().chdir = cstr(path) != b"/w";
    0
}
#[cfg(not(feature = "replay"))]
#[no_mangle]
pub extern "C" fn isatty(_: c_int) -> c_int {
    0
}
extern "C" {
    fn malloc(n: usize) -> *mut c_char;
}
/// There are no links: an absolute path is its own real path.
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, to: *mut c_char) -> *mut c_char {
    let mut p = cstr(path);
    if !on() || find(&p).is_none() {
        fail(2);
        return std::ptr::null_mut();
    }
    if p[0] != b'/' {
        p = [b"/w/", &p[..]].concat()
    }
    p.push(0);
    let b = if to.is_null() { malloc(p.len()) } else { to };
    for (i, c) in p.iter().enumerate() {
        *b.add(i) = *c as c_char
    }
    b
}
