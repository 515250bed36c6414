//! The operating system the tool runs on: a small file system behind the libc functions the
//! Rust library calls. These definitions take the place of libc's, in the symbolic run and in
//! the native replay alike. While the model is off they pass the call on to the kernel.
//! Every open, read, write and stat may fail, be interrupted or be cut short.

#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions)]
use crate::sym;
use std::os::raw::{c_char, c_int, c_long, c_void};

pub struct Fd { node: usize, pos: usize, flags: c_int, open: bool }
pub struct Vfs {
    pub on: bool,
    /// absolute path -> file
    pub names: Vec<(Vec<u8>, usize)>,
    /// symbolic link -> absolute path
    pub links: Vec<(Vec<u8>, Vec<u8>)>,
    pub nodes: Vec<Vec<u8>>,
    pub dirs: Vec<Vec<u8>>,
    fds: Vec<Fd>,
    pub stdin: Vec<u8>,
    pub inpos: usize,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    /// faults that may still happen
    pub faults: usize,
    /// faults that have happened
    pub read_faults: usize,
    pub open_faults: usize,
    pub write_faults: usize,
    pub end: Option<fn() -> !>,
}
pub static mut FS: Vfs = Vfs { on: false, names: vec![], links: vec![], nodes: vec![], dirs: vec![], fds: vec![], stdin: vec![], inpos: 0, out: vec![], err: vec![],
    faults: 0, read_faults: 0, open_faults: 0, write_faults: 0, end: None };
pub fn fs() -> &'static mut Vfs { unsafe { &mut FS } }

extern "C" {
    fn __errno_location() -> *mut c_int;
    #[cfg(feature = "replay")]
    fn syscall(n: c_long, ...) -> c_long;
}
#[cfg(not(feature = "replay"))]
unsafe fn syscall(_: c_long, _: c_long, _: c_long, _: c_long, _: c_long) -> c_long { -1 }
macro_rules! sys { ($n:expr, $a:expr, $b:expr, $c:expr, $d:expr) => { syscall($n as c_long, $a as c_long, $b as c_long, $c as c_long, $d as c_long) } }

const ENOENT: c_int = 2;
const EINTR: c_int = 4;
const EIO: c_int = 5;
const EBADF: c_int = 9;
const EACCES: c_int = 13;
const EEXIST: c_int = 17;
const EISDIR: c_int = 21;
const EINVAL: c_int = 22;
const ENOSPC: c_int = 28;
const ENOSYS: c_int = 38;
const O_ACC: c_int = 3;
const O_CREAT: c_int = 0o100;
const O_EXCL: c_int = 0o200;
const O_TRUNC: c_int = 0o1000;
const O_APPEND: c_int = 0o2000;

unsafe fn err(e: c_int) -> c_int { *__errno_location() = e; -1 }
unsafe fn cstr(p: *const c_char) -> Vec<u8> {
    let mut v = vec![];
    let mut q = p as *const u8;
    while *q != 0 { v.push(*q); q = q.add(1); }
    v
}
/// absolute path without "." and ".."
pub fn norm(p: &[u8]) -> Vec<u8> {
    let mut v: Vec<Vec<u8>> = vec![];
    if p.first() != Some(&b'/') { v.push(b"w".to_vec()); }
    for c in p.split(|c| *c == b'/') {
        match c {
            b"" | b"." => {}
            b".." => { v.pop(); }
            c => v.push(c.to_vec()),
        }
    }
    let mut r = vec![];
    for c in v { r.push(b'/'); r.extend_from_slice(&c); }
    r
}
impl Vfs {
    /// follows symbolic links
    pub fn real(&self, p: &[u8]) -> Vec<u8> {
        let mut p = norm(p);
        for _ in 0..4 {
            match self.links.iter().find(|l| l.0 == p) { Some(l) => p = l.1.clone(), None => break }
        }
        p
    }
    pub fn look(&self, p: &[u8]) -> Option<usize> {
        let p = self.real(p);
        self.names.iter().find(|n| n.0 == p).map(|n| n.1)
    }
    fn dir_ok(&self, p: &[u8]) -> bool {
        let n = p.iter().rposition(|c| *c == b'/').unwrap_or(0);
        self.dirs.iter().any(|d| &d[..] == &p[..n])
    }
    /// 0: none; 1: error; 2: interrupted; 3: short
    fn fault(&mut self, op: &'static str, kinds: usize) -> usize {
        if self.faults == 0 { return 0; }
        let k = sym::pick(op, kinds);
        if k > 0 { self.faults -= 1; }
        k
    }
    fn fd(&mut self, fd: c_int) -> Option<&mut Fd> {
        if fd < 100 { return None; }
        match self.fds.get_mut(fd as usize - 100) { Some(f) if f.open => Some(f), _ => None }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let f = fs();
    if !f.on { return sys!(2, path, flags, mode, 0) as c_int; }
    let wr = flags & O_ACC != 0;
    match f.fault(if wr { "open for writing" } else { "open for reading" }, 3) {
        1 => { if wr { f.open_faults += 1 } else { f.read_faults += 1 } return err(EACCES); }
        2 => return err(EINTR),
        _ => {}
    }
    let p = f.real(&cstr(path));
    if f.dirs.iter().any(|d| *d == p) { return err(EISDIR); }
    let node = match f.look(&p) {
        Some(n) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 { return err(EEXIST); }
            n
        }
        None => {
            if flags & O_CREAT == 0 || !f.dir_ok(&p) { return err(ENOENT); }
            f.nodes.push(vec![]);
            f.names.push((p, f.nodes.len() - 1));
            f.nodes.len() - 1
        }
    };
    if flags & O_TRUNC != 0 && wr { f.nodes[node].clear(); }
    f.fds.push(Fd { node, pos: 0, flags, open: true });
    f.fds.len() as c_int + 99
}
#[no_mangle]
pub unsafe extern "C" fn openat64(_d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int { open64(path, flags, mode) }

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let f = fs();
    if !f.on { return sys!(3, fd, 0, 0, 0) as c_int; }
    match f.fd(fd) { Some(x) => { x.open = false; 0 } None => err(EBADF) }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let f = fs();
    if !f.on { return sys!(0, fd, buf, n, 0) as isize; }
    let k = f.fault("read", 4);
    match k {
        1 => { f.read_faults += 1; return err(EIO) as isize; }
        2 => return err(EINTR) as isize,
        _ => {}
    }
    let (node, pos) = if fd == 0 { (0, f.inpos) } else {
        match f.fd(fd) { Some(x) if x.flags & O_ACC != 1 => (x.node, x.pos), _ => return err(EBADF) as isize }
    };
    let src: &[u8] = if fd == 0 { &f.stdin } else { &f.nodes[node] };
    let mut m = if pos < src.len() { src.len() - pos } else { 0 };
    if m > n { m = n; }
    if k == 3 && m > 1 { m = m / 2; }
    if m > 0 { std::ptr::copy_nonoverlapping(src.as_ptr().add(pos), buf as *mut u8, m); }
    if fd == 0 { f.inpos += m; } else { f.fd(fd).unwrap().pos += m; }
    m as isize
}

unsafe fn put(fd: c_int, p: *const u8, n: usize) -> isize {
    let f = fs();
    if fd == 2 { for i in 0..n { f.err.push(*p.add(i)); } return n as isize; }
    let k = f.fault("write", 4);
    match k {
        1 => { f.write_faults += 1; return err(ENOSPC) as isize; }
        2 => return err(EINTR) as isize,
        _ => {}
    }
    let m = if k == 3 && n > 1 { n / 2 } else { n };
    let s = std::slice::from_raw_parts(p, m);
    if fd == 1 { f.out.extend_from_slice(s); return m as isize; }
    let (node, mut pos, app) = match f.fd(fd) { Some(x) if x.flags & O_ACC != 0 => (x.node, x.pos, x.flags & O_APPEND != 0), _ => return err(EBADF) as isize };
    let d = &mut f.nodes[node];
    if app { pos = d.len(); }
    if d.len() < pos + m { d.resize(pos + m, 0); }
    d[pos..pos + m].copy_from_slice(s);
    f.fd(fd).unwrap().pos = pos + m;
    m as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    if !fs().on { return sys!(1, fd, p, n, 0) as isize; }
    put(fd, p as *const u8, n)
}
#[repr(C)]
pub struct IoVec { p: *const u8, n: usize }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if !fs().on { return sys!(20, fd, v, n, 0) as isize; }
    let mut t = 0;
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.n == 0 { continue; }
        let m = put(fd, x.p, x.n);
        if m < 0 { return if t > 0 { t } else { m }; }
        t += m;
        if (m as usize) < x.n { break; }
    }
    t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const IoVec, n: c_int) -> isize {
    if !fs().on { return sys!(19, fd, v, n, 0) as isize; }
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.n > 0 { return read(fd, x.p as *mut c_void, x.n); }
    }
    0
}

unsafe fn fill(st: *mut u8, node: usize, dir: bool, link: bool) {
    for i in 0..144 { *st.add(i) = 0; }
    let f = fs();
    *(st as *mut u64) = 1;
    *(st.add(8) as *mut u64) = node as u64 + 10;
    *(st.add(16) as *mut u64) = f.names.iter().filter(|n| n.1 == node).count() as u64;
    *(st.add(24) as *mut u32) = if link { 0o120777 } else if dir { 0o40755 } else { 0o100644 };
    *(st.add(48) as *mut u64) = if dir || link { 0 } else { f.nodes[node].len() as u64 };
    *(st.add(56) as *mut u64) = 4096;
}
unsafe fn stat_path(p: &[u8], st: *mut u8, follow: bool) -> c_int {
    let f = fs();
    match f.fault("stat", 2) { 1 => { f.read_faults += 1; return err(EACCES); } _ => {} }
    if !follow && f.links.iter().any(|l| l.0 == norm(p)) { fill(st, 1000, false, true); return 0; }
    let r = f.real(p);
    if let Some(i) = f.dirs.iter().position(|d| *d == r) { fill(st, 2000 + i, true, false); return 0; }
    match f.look(p) { Some(n) => { fill(st, n, false, false); 0 } None => err(ENOENT) }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, st: *mut u8) -> c_int {
    if !fs().on { return sys!(4, path, st, 0, 0) as c_int; }
    stat_path(&cstr(path), st, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, st: *mut u8) -> c_int {
    if !fs().on { return sys!(6, path, st, 0, 0) as c_int; }
    stat_path(&cstr(path), st, false)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut u8) -> c_int {
    let f = fs();
    if !f.on { return sys!(5, fd, st, 0, 0) as c_int; }
    match f.fault("fstat", 2) { 1 => { f.read_faults += 1; return err(EIO); } _ => {} }
    match f.fd(fd) { Some(x) => { let n = x.node; fill(st, n, false, false); 0 } None => err(EBADF) }
}
#[no_mangle]
pub unsafe extern "C" fn statx(_d: c_int, _p: *const c_char, _f: c_int, _m: u32, _b: *mut c_void) -> c_int { err(ENOSYS) }
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    let f = fs();
    if !f.on { return sys!(21, path, mode, 0, 0) as c_int; }
    let p = cstr(path);
    if f.look(&p).is_some() || f.dirs.iter().any(|d| *d == norm(&p)) { 0 } else { err(ENOENT) }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(_d: c_int, path: *const c_char, mode: c_int, _f: c_int) -> c_int { access(path, mode) }
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    let f = fs();
    if !f.on { return sys!(8, fd, off, wh, 0) as i64; }
    let len = match f.fd(fd) { Some(x) => x.node, None => return err(EBADF) as i64 };
    let len = f.nodes[len].len() as i64;
    let x = f.fd(fd).unwrap();
    let b = match wh { 0 => 0, 1 => x.pos as i64, 2 => len, _ => return err(EINVAL) as i64 };
    if b + off < 0 { return err(EINVAL) as i64; }
    x.pos = (b + off) as usize;
    b + off
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let f = fs();
    if !f.on { return sys!(77, fd, n, 0, 0) as c_int; }
    match f.fd(fd) { Some(x) => { let k = x.node; f.nodes[k].resize(n as usize, 0); 0 } None => err(EBADF) }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: u32) -> c_int { if fs().on { 0 } else { sys!(91, fd, m, 0, 0) as c_int } }
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int { if fs().on { 0 } else { sys!(90, p, m, 0, 0) as c_int } }
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { if fs().on { 0 } else { sys!(74, fd, 0, 0, 0) as c_int } }
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { if fs().on { 0 } else { sys!(75, fd, 0, 0, 0) as c_int } }
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: usize, _f: u32) -> isize { err(ENOSYS) as isize }
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_a: c_int, _b: c_int, _o: *mut i64, _n: usize) -> isize { err(ENOSYS) as isize }
#[no_mangle]
pub unsafe extern "C" fn splice(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: usize, _f: u32) -> isize { err(EINVAL) as isize }
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let f = fs();
    if !f.on { return sys!(82, a, b, 0, 0) as c_int; }
    match f.fault("rename", 2) { 1 => { f.open_faults += 1; return err(EACCES); } _ => {} }
    let (a, b) = (norm(&cstr(a)), norm(&cstr(b)));
    let i = match f.names.iter().position(|n| n.0 == a) { Some(i) => i, None => return err(ENOENT) };
    if !f.dir_ok(&b) { return err(ENOENT); }
    let n = f.names.remove(i).1;
    f.links.retain(|l| l.0 != b);
    f.names.retain(|x| x.0 != b);
    f.names.push((b, n));
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let f = fs();
    if !f.on { return sys!(87, a, 0, 0, 0) as c_int; }
    let a = norm(&cstr(a));
    if f.links.iter().any(|l| l.0 == a) { f.links.retain(|l| l.0 != a); return 0; }
    if !f.names.iter().any(|n| n.0 == a) { return err(ENOENT); }
    f.names.retain(|n| n.0 != a);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    if !fs().on { return if sys!(79, b, n, 0, 0) > 0 { b } else { std::ptr::null_mut() }; }
    for (i, c) in b"/w\0".iter().enumerate() { *b.add(i) = *c as c_char; }
    b
}
extern "C" { fn malloc(n: usize) -> *mut c_void; }
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, b: *mut c_char) -> *mut c_char {
    let f = fs();
    let p = cstr(p);
    if !f.on { err(ENOSYS); return std::ptr::null_mut(); }
    let r = f.real(&p);
    if f.look(&p).is_none() && !f.dirs.iter().any(|d| *d == r) { err(ENOENT); return std::ptr::null_mut(); }
    let b = if b.is_null() { malloc(4096) as *mut c_char } else { b };
    for (i, c) in r.iter().enumerate() { *b.add(i) = *c as c_char; }
    *b.add(r.len()) = 0;
    b
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize {
    let f = fs();
    if !f.on { return sys!(89, p, b, n, 0) as isize; }
    let p = norm(&cstr(p));
    match f.links.iter().find(|l| l.0 == p) {
        Some(l) => { let m = l.1.len().min(n); for i in 0..m { *b.add(i) = l.1[i] as c_char; } m as isize }
        None => err(EINVAL) as isize,
    }
}
/// the process ends
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    let f = fs();
    if f.on { if let Some(e) = f.end { e() } }
    leave(code)
}
pub unsafe fn leave(code: c_int) -> ! {
    loop {
        sys!(231, code, 0, 0, 0);
        #[cfg(not(feature = "replay"))]
        sym::end();
    }
}
#[no_mangle]
pub unsafe extern "C" fn __xpg_strerror_r(_e: c_int, b: *mut c_char, n: usize) -> c_int {
    for (i, c) in b"refused\0".iter().enumerate() { if i < n { *b.add(i) = *c as c_char; } }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int { if fs().on { 0 } else { sys!(72, fd, cmd, arg, 0) as c_int } }
