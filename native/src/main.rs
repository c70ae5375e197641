//! Runs recorded paths of the harnesses against the real crate (real regex, real hash maps).
//! usage: nx HARNESS < lines of comma separated inputs ; one result line per input line
#[path = "sym_native.rs"]
pub mod sym;
include!("../../harness/src/all.rs");

use std::io::{BufRead, Write};

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        fn find(n: &str) -> Option<fn()> { match n { $( stringify!($f) => Some($m::$f as fn()), )* _ => None } }
    };
}
harnesses!(table);

fn main() {
    let name = std::env::args().nth(1).expect("harness name");
    let f = match find(&name) {
        Some(f) => f,
        None => {
            eprintln!("no harness {name}");
            std::process::exit(3)
        }
    };
    static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        *LAST.lock().unwrap() = format!("{loc} {msg}");
    }));
    let verbose = std::env::var("NX_VERBOSE").is_ok();
    let stdin = std::io::stdin();
    let mut out = std::io::stdout().lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let inputs: Vec<u128> = line.split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
        sym::ST.with(|s| *s.borrow_mut() = sym::St { inputs, ..Default::default() });
        let r = std::panic::catch_unwind(f);
        let st = match r {
            Ok(()) => "ok".to_string(),
            Err(p) => {
                if p.downcast_ref::<sym::AssumeCut>().is_some() {
                    "assume".to_string()
                } else if let Some(f) = p.downcast_ref::<sym::PropFail>() {
                    format!("fail:{}", f.0)
                } else {
                    format!("panic:{}", LAST.lock().unwrap().replace(['\n', '\t', '\r'], " "))
                }
            }
        };
        let (em, notes) = sym::ST.with(|s| {
            let s = s.borrow();
            (s.emitted.iter().map(|b| format!("{b:02x}")).collect::<String>(), s.notes.clone())
        });
        writeln!(out, "{}\t{}", st.replace(['\n', '\t', '\r'], " "), em).unwrap();
        if verbose {
            for n in notes {
                writeln!(out, "# {}", n.escape_debug()).unwrap();
            }
        }
        out.flush().unwrap();
    }
}

/// the harnesses' file system in front of the kernel's
mod model {
    use crate::fsm;
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    macro_rules! models {
        ($($n:ident($($a:ident: $t:ty),*) -> $r:ty = $own:expr => $e:expr, $nr:expr, ($($x:expr),*);)*) => { $(
            #[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) -> $r { if $own { $e } else { syscall($nr, $($x),*) as $r } }
        )* };
    }
    const AT: i64 = -100;
    models! {
        open64(p: *const u8, flags: i32, mode: u32) -> i32 = fsm::mine(p) => fsm::open(p, flags), 257, (AT, p, flags as i64, mode as i64);
        read(fd: i32, b: *mut u8, n: usize) -> i64 = fsm::mine_fd(fd) => fsm::read(fd, b, n), 0, (fd as i64, b, n);
        write(fd: i32, b: *const u8, n: usize) -> i64 = fsm::mine_fd(fd) => fsm::write(fd, b, n), 1, (fd as i64, b, n);
        readv(fd: i32, v: *const [usize; 2], n: i32) -> i64 = fsm::mine_fd(fd) => fsm::readv(fd, v, n), 19, (fd as i64, v, n as i64);
        writev(fd: i32, v: *const [usize; 2], n: i32) -> i64 = fsm::mine_fd(fd) => fsm::writev(fd, v, n), 20, (fd as i64, v, n as i64);
        close(fd: i32) -> i32 = fsm::mine_fd(fd) => fsm::close(fd), 3, (fd as i64);
        lseek64(fd: i32, o: i64, w: i32) -> i64 = fsm::mine_fd(fd) => fsm::lseek(fd, o, w), 8, (fd as i64, o, w as i64);
        stat64(p: *const u8, b: *mut u8) -> i32 = fsm::mine(p) => fsm::stat(p, b), 4, (p, b);
        lstat64(p: *const u8, b: *mut u8) -> i32 = fsm::mine(p) => fsm::stat(p, b), 6, (p, b);
        fstat64(fd: i32, b: *mut u8) -> i32 = fsm::mine_fd(fd) => fsm::fstat(fd, b), 5, (fd as i64, b);
        statx(fd: i32, p: *const u8, f: i32, m: u32, b: *mut u8) -> i32 = fsm::mine_fd(fd) || fsm::mine(p) => fsm::statx(fd, p, b), 332, (fd as i64, p, f as i64, m as i64, b);
        mkdir(p: *const u8, m: u32) -> i32 = fsm::mine(p) => fsm::mkdir(p), 83, (p, m as i64);
        unlink(p: *const u8) -> i32 = fsm::mine(p) => fsm::unlink(p), 87, (p);
        rename(p: *const u8, q: *const u8) -> i32 = fsm::mine(p) => fsm::rename(p, q), 82, (p, q);
        ftruncate64(fd: i32, n: i64) -> i32 = fsm::mine_fd(fd) => fsm::ftruncate(fd, n), 77, (fd as i64, n);
        fcntl(fd: i32, c: i32, a: i64) -> i32 = fsm::mine_fd(fd) => 0, 72, (fd as i64, c as i64, a);
        fcntl64(fd: i32, c: i32, a: i64) -> i32 = fsm::mine_fd(fd) => 0, 72, (fd as i64, c as i64, a);
        access(p: *const u8, m: i32) -> i32 = fsm::mine(p) => fsm::access(p), 21, (p, m as i64);
    }
}
