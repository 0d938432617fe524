//! The operating-system model.
use crate::exec::*;
use crate::ir::*;

#[derive(Clone, Default)]
pub struct Os {}

const NAMES: &[&str] = &["__errno_location", "getenv", "rust_psm_stack_pointer", "pthread_attr_init", "dlsym", "getrandom", "write", "__cxa_thread_atexit_impl", "clock_gettime", "nanosleep", "clock_nanosleep", "getpid", "sched_yield"];

/// functions reached only through dlsym
pub const EXTRA: &[&str] = &["getrandom"];

pub fn index(n: &str) -> Option<u16> {
    NAMES.iter().position(|x| *x == n).map(|i| i as u16)
}

pub fn call(_e: &mut Eng, st: &mut State, k: u16, _fi: u32, _a: Vec<V>, _ret: &Ty) -> Result<Option<V>, Stop> {
    let i = |x: u64| Ok(Some(V::I(x as u128)));
    match NAMES[k as usize] {
        "rust_psm_stack_pointer" => i((STACK_ID + st.stack.len() as u64) << 32),
        "nanosleep" | "clock_nanosleep" | "sched_yield" => i(0),
        "getpid" => i(4242),
        "getenv" => i(0),
        // a fixed clock
        "clock_gettime" => {
            let V::I(p) = _a[1] else { return err("clock_gettime") };
            let mut b = 1_700_000_000u64.to_le_bytes().to_vec();
            b.extend(123_456_789u64.to_le_bytes());
            let b: Vec<V> = b.into_iter().map(|x| V::I(x as u128)).collect();
            _e.store_bytes(st, p as u64, &b)?;
            i(0)
        }
        // standard output and standard error swallow everything
        "write" => match (&_a[0], &_a[2]) {
            (V::I(1 | 2), V::I(n)) => i(*n as u64),
            _ => err("write"),
        },
        // thread-local destructors never run within a harness
        "__cxa_thread_atexit_impl" => i(0),
        // no stack bounds are available: pest's guard is inactive
        "pthread_attr_init" => i(12),
        "dlsym" => {
            let V::I(p) = _a[1] else { return err("dlsym") };
            let n = _e.cstr(st, p as u64)?.len();
            let t = _e.text(st, p as u64, n)?;
            match _e.m.fn_by_name.get(&t) {
                Some(f) if index(&t).is_some() => i(fn_addr(*f)),
                _ => i(0),
            }
        }
        // deterministic "random" bytes; nothing checked may depend on their values
        "getrandom" => {
            let (V::I(p), V::I(n)) = (&_a[0], &_a[1]) else { return err("getrandom") };
            let mut v = vec![];
            for _ in 0..*n {
                st.env.rnd = st.env.rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.push(V::I((st.env.rnd >> 56) as u128));
            }
            if *n > 0 {
                _e.store_bytes(st, *p as u64, &v)?;
            }
            i(*n as u64)
        }
        n => err(format!("OS call {}", n)),
    }
}
