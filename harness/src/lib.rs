#[path = "sym_engine.rs"]
pub mod sym;
include!("all.rs");

macro_rules! export {
    ($($m:ident :: $f:ident),* $(,)?) => { pub mod entry { $(
        #[no_mangle] #[inline(never)] pub extern "C" fn $f() { super::$m::$f() }
    )* } };
}
harnesses!(export);

/// the environment: what the executor runs for the external functions of the same name
pub mod model {
    use crate::fsm;
    macro_rules! models {
        ($($n:ident($($a:ident: $t:ty),*) -> $r:ty = $own:expr => $e:expr, $else:expr;)*) => { $(
            #[no_mangle] #[inline(never)] pub extern "C" fn $n($($a: $t),*) -> $r { if $own { $e } else { $else } }
        )* };
    }
    models! {
        __model_open64(p: *const u8, flags: i32, _mode: u32) -> i32 = fsm::mine(p) => fsm::open(p, flags), -1;
        __model_read(fd: i32, b: *mut u8, n: usize) -> i64 = fsm::mine_fd(fd) => fsm::read(fd, b, n), -1;
        __model_write(fd: i32, b: *const u8, n: usize) -> i64 = fsm::mine_fd(fd) => fsm::write(fd, b, n), n as i64;
        __model_readv(fd: i32, v: *const [usize; 2], n: i32) -> i64 = fsm::mine_fd(fd) => fsm::readv(fd, v, n), -1;
        __model_writev(fd: i32, v: *const [usize; 2], n: i32) -> i64 = fsm::mine_fd(fd) => fsm::writev(fd, v, n), total(v, n);
        __model_close(fd: i32) -> i32 = fsm::mine_fd(fd) => fsm::close(fd), 0;
        __model_lseek64(fd: i32, o: i64, w: i32) -> i64 = fsm::mine_fd(fd) => fsm::lseek(fd, o, w), -1;
        __model_stat64(p: *const u8, b: *mut u8) -> i32 = fsm::mine(p) => fsm::stat(p, b), -1;
        __model_lstat64(p: *const u8, b: *mut u8) -> i32 = fsm::mine(p) => fsm::stat(p, b), -1;
        __model_fstat64(fd: i32, b: *mut u8) -> i32 = fsm::mine_fd(fd) => fsm::fstat(fd, b), -1;
        __model_statx(fd: i32, p: *const u8, _f: i32, _m: u32, b: *mut u8) -> i32 = fsm::mine_fd(fd) || fsm::mine(p) || p.is_null() => fsm::statx(fd, p, b), -1;
        __model_mkdir(p: *const u8, _m: u32) -> i32 = fsm::mine(p) => fsm::mkdir(p), -1;
        __model_unlink(p: *const u8) -> i32 = fsm::mine(p) => fsm::unlink(p), -1;
        __model_rename(p: *const u8, q: *const u8) -> i32 = fsm::mine(p) => fsm::rename(p, q), -1;
        __model_ftruncate64(fd: i32, n: i64) -> i32 = fsm::mine_fd(fd) => fsm::ftruncate(fd, n), -1;
        __model_access(p: *const u8, _m: i32) -> i32 = fsm::mine(p) => fsm::access(p), -1;
        __model_fsync(_fd: i32) -> i32 = true => 0, 0;
        __model_fdatasync(_fd: i32) -> i32 = true => 0, 0;
    }
    fn total(v: *const [usize; 2], n: i32) -> i64 {
        let mut t = 0;
        for i in 0..n as usize {
            t += unsafe { (*v.add(i))[1] };
        }
        t as i64
    }
}
