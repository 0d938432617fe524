//! The interface between harnesses and the symbolic executor.
#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn sym_bytes(p: *mut u8, n: usize);
        fn sym_pick(n: usize) -> usize;
        fn sym_assume(c: bool);
        fn sym_check(c: bool, p: *const u8, n: usize);
        fn sym_fail(p: *const u8, n: usize) -> !;
        fn sym_cover(id: u32);
        fn sym_observe(p: *const u8, n: usize);
    }
    pub fn bytes(b: &mut [u8]) {
        unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn pick(n: usize) -> usize {
        unsafe { sym_pick(n) }
    }
    pub fn assume(c: bool) {
        unsafe { sym_assume(c) }
    }
    pub fn check(c: bool, m: &'static str) {
        unsafe { sym_check(c, m.as_ptr(), m.len()) }
    }
    pub fn fail(m: &'static str) -> ! {
        unsafe { sym_fail(m.as_ptr(), m.len()) }
    }
    pub fn cover(id: u32) {
        unsafe { sym_cover(id) }
    }
    pub fn observe(b: &[u8]) {
        unsafe { sym_observe(b.as_ptr(), b.len()) }
    }
}
#[cfg(feature = "replay")]
mod imp {
    use std::cell::RefCell;
    pub struct St {
        pub input: Vec<u8>,
        pub pos: usize,
        pub hash: u64,
        pub covers: Vec<u32>,
        pub note: String,
    }
    pub struct Fail(pub String);
    pub struct Assume;
    thread_local! { pub static S: RefCell<St> = RefCell::new(St { input: vec![], pos: 0, hash: 0xcbf29ce484222325, covers: vec![], note: String::new() }); }
    pub fn reset(input: &[u8]) {
        S.with(|s| *s.borrow_mut() = St { input: input.to_vec(), pos: 0, hash: 0xcbf29ce484222325, covers: vec![], note: String::new() });
    }
    pub fn note(m: &str) {
        S.with(|s| {
            if let Ok(mut s) = s.try_borrow_mut() {
                s.note = m.to_string()
            }
        })
    }
    fn next() -> u8 {
        S.with(|s| {
            let mut s = s.borrow_mut();
            let v = s.input.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            v
        })
    }
    pub fn bytes(b: &mut [u8]) {
        for x in b {
            *x = next()
        }
    }
    pub fn pick(n: usize) -> usize {
        (next() as usize).min(n - 1)
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Assume)
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            std::panic::panic_any(Fail(m.to_string()))
        }
    }
    pub fn fail(m: &'static str) -> ! {
        std::panic::panic_any(Fail(m.to_string()))
    }
    pub fn cover(id: u32) {
        S.with(|s| s.borrow_mut().covers.push(id));
    }
    pub fn observe(b: &[u8]) {
        S.with(|s| {
            let mut s = s.borrow_mut();
            for x in b {
                s.hash = (s.hash ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        });
    }
}
pub use imp::*;
