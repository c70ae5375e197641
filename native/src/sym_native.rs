//! Concrete back end: the inputs come from a recorded path.
use std::cell::RefCell;
#[derive(Default)]
pub struct St {
    pub inputs: Vec<u128>,
    pub next: usize,
    pub emitted: Vec<u8>,
    pub notes: Vec<String>,
}
thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
pub struct AssumeCut;
pub struct PropFail(pub String);
fn input() -> u128 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.next;
        s.next += 1;
        s.inputs.get(i).copied().unwrap_or(0)
    })
}
pub fn var(bits: u64) -> u64 {
    let v = input() as u64;
    if bits < 64 {
        v & ((1u64 << bits) - 1)
    } else {
        v
    }
}
pub fn choice(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    (input() as usize).min(n - 1)
}
pub fn assume(c: bool) {
    if !c {
        std::panic::panic_any(AssumeCut)
    }
}
pub fn fail(m: &str) -> ! {
    std::panic::panic_any(PropFail(m.to_string()))
}
pub fn cover(_id: u64) {}
pub fn emit(b: &[u8]) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.emitted.extend_from_slice(b);
        s.emitted.push(0xff);
    })
}
pub fn note(s: &str) {
    ST.with(|st| st.borrow_mut().notes.push(s.to_string()))
}
pub fn hash_mode(_n: u64) {}
pub const NATIVE: bool = true;
