//! An in-memory file system behind the system calls, with short transfers, interruptions and failures.
//! The symbolic executor takes `__model_X` for the external function X; the native runner defines X itself
//! and hands everything that is not in the model (its own stdin, stdout, ...) to the kernel.
//! Paths of the model start with "/kxfs" or "kxfs".
use std::cell::UnsafeCell;

pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;

pub struct Node {
    pub path: Vec<u8>,
    pub dir: bool,
    pub data: Vec<u8>,
    pub live: bool,
}
struct Open {
    fd: i32,
    node: usize,
    pos: usize,
    flags: i32,
}
/// what happens to the calls: at most `chunk` bytes per transfer; every call listed in `intr` is interrupted first;
/// call number `fail.0` of kind `fail.1` fails with `fail.2`
pub struct Plan {
    pub chunk: usize,
    pub intr: [usize; 2],
    pub fail: Option<(usize, u8, i32)>,
    /// the size that stat reports is wrong by this
    pub size_off: isize,
}
pub struct Fs {
    pub nodes: Vec<Node>,
    open: Vec<Open>,
    next: i32,
    pub plan: Plan,
    calls: [usize; 256],
    pub failed: bool,
    pub opened: usize,
    pub closed: usize,
}
struct Cell(UnsafeCell<Option<Fs>>);
unsafe impl Sync for Cell {}
static FS: Cell = Cell(UnsafeCell::new(None));

pub fn reset() {
    unsafe {
        *FS.0.get() = Some(Fs {
            nodes: vec![Node { path: b"/kxfs".to_vec(), dir: true, data: vec![], live: true }],
            open: vec![],
            next: 5000,
            plan: Plan { chunk: 0, intr: [usize::MAX; 2], fail: None, size_off: 0 },
            calls: [0; 256],
            failed: false,
            opened: 0,
            closed: 0,
        });
    }
}
pub fn fs() -> &'static mut Fs {
    unsafe {
        let f = &mut *FS.0.get();
        if f.is_none() {
            reset();
        }
        (*FS.0.get()).as_mut().unwrap()
    }
}
pub fn add(path: &str, dir: bool, data: &[u8]) {
    fs().nodes.push(Node { path: path.as_bytes().to_vec(), dir, data: data.to_vec(), live: true });
}
pub fn find(path: &[u8]) -> Option<usize> {
    fs().nodes.iter().position(|n| n.live && n.path == path)
}
pub fn data(path: &str) -> Option<&'static Vec<u8>> {
    find(path.as_bytes()).map(|i| &fs().nodes[i]).filter(|n| !n.dir).map(|n| &n.data)
}
extern "C" {
    fn __errno_location() -> *mut i32;
}
fn fail(e: i32) -> i64 {
    unsafe { *__errno_location() = e };
    -1
}
pub fn path<'a>(p: *const u8) -> &'a [u8] {
    unsafe {
        let mut n = 0;
        while *p.add(n) != 0 {
            n += 1;
        }
        // no trailing slash
        while n > 1 && *p.add(n - 1) == b'/' {
            n -= 1;
        }
        std::slice::from_raw_parts(p, n)
    }
}
/// does the model answer for this path / descriptor
pub fn mine(p: *const u8) -> bool {
    if p.is_null() {
        return false;
    }
    let p = path(p);
    p.starts_with(b"/kxfs") || p.starts_with(b"kxfs")
}
pub fn mine_fd(fd: i32) -> bool {
    fd >= 5000 && fd < 6000
}
/// an interruption or failure planned for this call
fn fault(kind: u8, interruptible: bool) -> Option<i64> {
    let f = fs();
    let n = f.calls[kind as usize];
    f.calls[kind as usize] += 1;
    if interruptible && f.plan.intr.contains(&n) {
        return Some(fail(EINTR));
    }
    if let Some((at, k, e)) = f.plan.fail {
        if k == kind && n >= at {
            f.failed = true;
            return Some(fail(e));
        }
    }
    None
}
fn parent(p: &[u8]) -> &[u8] {
    match p.iter().rposition(|c| *c == b'/') {
        Some(0) => &p[..1],
        Some(i) => &p[..i],
        None => b"",
    }
}
/// 0: there; else the error
fn parent_error(p: &[u8]) -> i32 {
    let d = parent(p);
    if d.is_empty() || d == b"/" {
        return 0;
    }
    match find(d) {
        Some(i) => {
            if fs().nodes[i].dir {
                0
            } else {
                ENOTDIR
            }
        }
        None => {
            let e = parent_error(d);
            if e == ENOTDIR {
                e
            } else {
                ENOENT
            }
        }
    }
}
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;
const O_DIRECTORY: i32 = 0o200000;
pub fn open(p: *const u8, flags: i32) -> i32 {
    if let Some(e) = fault(b'o', true) {
        return e as i32;
    }
    let p = path(p);
    let e = parent_error(p);
    if e != 0 {
        return fail(e) as i32;
    }
    let node = match find(p) {
        Some(i) => {
            if flags & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL {
                return fail(EEXIST) as i32;
            }
            if fs().nodes[i].dir && flags & 3 != 0 {
                return fail(EISDIR) as i32;
            }
            if !fs().nodes[i].dir && flags & O_DIRECTORY != 0 {
                return fail(ENOTDIR) as i32;
            }
            if flags & O_TRUNC != 0 {
                fs().nodes[i].data.clear();
            }
            i
        }
        None => {
            if flags & O_CREAT == 0 {
                return fail(ENOENT) as i32;
            }
            fs().nodes.push(Node { path: p.to_vec(), dir: false, data: vec![], live: true });
            fs().nodes.len() - 1
        }
    };
    let f = fs();
    let fd = f.next;
    f.next += 1;
    f.opened += 1;
    f.open.push(Open { fd, node, pos: 0, flags });
    fd
}
fn of(fd: i32) -> Option<usize> {
    fs().open.iter().position(|o| o.fd == fd)
}
pub fn read(fd: i32, buf: *mut u8, n: usize) -> i64 {
    let i = match of(fd) {
        Some(i) => i,
        None => return fail(EBADF),
    };
    if let Some(e) = fault(b'r', true) {
        return e;
    }
    let f = fs();
    let node = f.open[i].node;
    if f.nodes[node].dir {
        return fail(EISDIR);
    }
    if f.open[i].flags & 3 == 1 {
        return fail(EBADF);
    }
    let pos = f.open[i].pos;
    let have = f.nodes[node].data.len().saturating_sub(pos);
    let mut k = if n < have { n } else { have };
    if f.plan.chunk > 0 && k > f.plan.chunk {
        k = f.plan.chunk;
    }
    unsafe { std::ptr::copy_nonoverlapping(f.nodes[node].data.as_ptr().add(pos), buf, k) };
    f.open[i].pos += k;
    k as i64
}
pub fn write(fd: i32, buf: *const u8, n: usize) -> i64 {
    let i = match of(fd) {
        Some(i) => i,
        None => return fail(EBADF),
    };
    if let Some(e) = fault(b'w', true) {
        return e;
    }
    let f = fs();
    if f.open[i].flags & 3 == 0 {
        return fail(EBADF);
    }
    let k = if f.plan.chunk > 0 && n > f.plan.chunk { f.plan.chunk } else { n };
    let b = unsafe { std::slice::from_raw_parts(buf, k) };
    let node = f.open[i].node;
    if f.open[i].flags & O_APPEND != 0 {
        f.open[i].pos = f.nodes[node].data.len();
    }
    let pos = f.open[i].pos;
    let d = &mut f.nodes[node].data;
    while d.len() < pos {
        d.push(0);
    }
    if pos == d.len() {
        d.extend_from_slice(b);
    } else {
        for (j, c) in b.iter().enumerate() {
            if pos + j < d.len() {
                d[pos + j] = *c;
            } else {
                d.push(*c);
            }
        }
    }
    f.open[i].pos += k;
    k as i64
}
pub fn writev(fd: i32, iov: *const [usize; 2], n: i32) -> i64 {
    // the first part that is not empty
    for i in 0..n as usize {
        let v = unsafe { *iov.add(i) };
        if v[1] > 0 {
            return write(fd, v[0] as *const u8, v[1]);
        }
    }
    0
}
pub fn readv(fd: i32, iov: *const [usize; 2], n: i32) -> i64 {
    for i in 0..n as usize {
        let v = unsafe { *iov.add(i) };
        if v[1] > 0 {
            return read(fd, v[0] as *mut u8, v[1]);
        }
    }
    0
}
pub fn close(fd: i32) -> i32 {
    match of(fd) {
        Some(i) => {
            let f = fs();
            f.open.remove(i);
            f.closed += 1;
            0
        }
        None => fail(EBADF) as i32,
    }
}
pub fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    let i = match of(fd) {
        Some(i) => i,
        None => return fail(EBADF),
    };
    let f = fs();
    let base = match whence {
        0 => 0,
        1 => f.open[i].pos as i64,
        _ => f.nodes[f.open[i].node].data.len() as i64,
    };
    if base + off < 0 {
        return fail(EINVAL);
    }
    f.open[i].pos = (base + off) as usize;
    base + off
}
/// (is a directory, size)
fn stat_of(node: usize) -> (bool, u64) {
    let f = fs();
    let n = &f.nodes[node];
    let s = n.data.len() as isize + f.plan.size_off;
    (n.dir, if s < 0 { 0 } else { s as u64 })
}
fn lookup(p: &[u8]) -> Result<usize, i32> {
    match find(p) {
        Some(i) => Ok(i),
        None => Err(if parent_error(p) == ENOTDIR { ENOTDIR } else { ENOENT }),
    }
}
fn mode(dir: bool) -> u32 {
    if dir {
        0o040755
    } else {
        0o100644
    }
}
unsafe fn fill_stat(buf: *mut u8, node: usize) -> i32 {
    std::ptr::write_bytes(buf, 0, 144);
    let (d, s) = stat_of(node);
    *(buf.add(8) as *mut u64) = node as u64 + 1;
    *(buf.add(16) as *mut u64) = 1;
    *(buf.add(24) as *mut u32) = mode(d);
    *(buf.add(48) as *mut u64) = s;
    *(buf.add(56) as *mut u64) = 4096;
    0
}
pub fn stat(p: *const u8, buf: *mut u8) -> i32 {
    match lookup(path(p)) {
        Ok(i) => unsafe { fill_stat(buf, i) },
        Err(e) => fail(e) as i32,
    }
}
pub fn fstat(fd: i32, buf: *mut u8) -> i32 {
    match of(fd) {
        Some(i) => unsafe { fill_stat(buf, fs().open[i].node) },
        None => fail(EBADF) as i32,
    }
}
pub fn statx(fd: i32, p: *const u8, buf: *mut u8) -> i32 {
    if p.is_null() {
        // (how std finds out that the call exists)
        return fail(14) as i32;
    }
    let pp = path(p);
    let node = if pp.is_empty() {
        match of(fd) {
            Some(i) => fs().open[i].node,
            None => return fail(EBADF) as i32,
        }
    } else {
        match lookup(pp) {
            Ok(i) => i,
            Err(e) => return fail(e) as i32,
        }
    };
    let (d, s) = stat_of(node);
    unsafe {
        std::ptr::write_bytes(buf, 0, 256);
        *(buf as *mut u32) = 0x7ff;
        *(buf.add(4) as *mut u32) = 4096;
        *(buf.add(16) as *mut u32) = 1;
        *(buf.add(28) as *mut u16) = mode(d) as u16;
        *(buf.add(32) as *mut u64) = node as u64 + 1;
        *(buf.add(40) as *mut u64) = s;
    }
    0
}
pub fn mkdir(p: *const u8) -> i32 {
    if let Some(e) = fault(b'm', false) {
        return e as i32;
    }
    let p = path(p);
    if find(p).is_some() {
        return fail(EEXIST) as i32;
    }
    let e = parent_error(p);
    if e != 0 {
        return fail(e) as i32;
    }
    fs().nodes.push(Node { path: p.to_vec(), dir: true, data: vec![], live: true });
    0
}
pub fn unlink(p: *const u8) -> i32 {
    match lookup(path(p)) {
        Ok(i) => {
            if fs().nodes[i].dir {
                return fail(EISDIR) as i32;
            }
            fs().nodes[i].live = false;
            0
        }
        Err(e) => fail(e) as i32,
    }
}
pub fn rename(a: *const u8, b: *const u8) -> i32 {
    if let Some(e) = fault(b'n', false) {
        return e as i32;
    }
    let (a, b) = (path(a), path(b));
    let e = parent_error(b);
    if e != 0 {
        return fail(e) as i32;
    }
    match lookup(a) {
        Ok(i) => {
            if let Some(j) = find(b) {
                if fs().nodes[j].dir {
                    return fail(EISDIR) as i32;
                }
                fs().nodes[j].live = false;
            }
            fs().nodes[i].path = b.to_vec();
            0
        }
        Err(e) => fail(e) as i32,
    }
}
pub fn ftruncate(fd: i32, n: i64) -> i32 {
    match of(fd) {
        Some(i) => {
            let f = fs();
            let node = f.open[i].node;
            f.nodes[node].data.resize(n as usize, 0);
            0
        }
        None => fail(EBADF) as i32,
    }
}
pub fn access(p: *const u8) -> i32 {
    match lookup(path(p)) {
        Ok(_) => 0,
        Err(e) => fail(e) as i32,
    }
}
