//! Harnesses: each `h_*` function is one verification condition over the
//! public API of graphviz-rust. Compiled to LLVM IR they are executed
//! symbolically; with the `replay` feature the same functions run natively on
//! a concrete input.
#![allow(dead_code, unused_imports)]
mod sym;

/// Declares entry points and the table the replay binary uses.
#[macro_export]
macro_rules! entries {
    ($($name:ident $body:block)*) => {
        $( #[no_mangle] pub extern "C-unwind" fn $name() $body )*
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[ $( (stringify!($name), $name) ),* ];
    };
}
mod combo;
mod gen;
mod refp;
mod refq;
#[macro_use]
mod util;
macro_rules! modules {
    ($($m:ident $f:literal)*) => {
        $( #[cfg(feature = $f)] mod $m; )*
        fn table() -> Vec<(&'static str, extern "C-unwind" fn())> {
            let mut v: Vec<(&'static str, extern "C-unwind" fn())> = vec![];
            $( #[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES); )*
            v
        }
    };
}
modules! { text "text" print "print" attrs "attrs" structs "structs" macros "macros" cmds "cmds" }
#[cfg(feature = "attrs")]
mod attrtab;
#[cfg(feature = "cmds")]
mod osmodel;

#[cfg(not(feature = "replay"))]
fn main() {
    let a = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in table() {
        if n == a {
            f()
        }
    }
}

#[cfg(feature = "replay")]
fn main() {
    use std::io::{BufRead, Write};
    std::panic::set_hook(Box::new(|i| {
        if i.payload().downcast_ref::<sym::Assume>().is_none() && i.payload().downcast_ref::<sym::Fail>().is_none() {
            sym::note(&i.to_string());
            if std::env::var_os("HX_VERBOSE").is_some() {
                eprintln!("{}", i)
            }
        }
    }));
    let t = table();
    // what the code under test prints must not mix with the results
    let mut out = unsafe {
        use std::os::fd::FromRawFd;
        extern "C" {
            fn dup(a: i32) -> i32;
            fn dup2(a: i32, b: i32) -> i32;
        }
        let keep = dup(1);
        let null = std::fs::File::options().write(true).open("/dev/null").unwrap();
        dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 1);
        std::fs::File::from_raw_fd(keep)
    };
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let (n, h) = l.split_once(' ').unwrap();
        let input: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let f = t.iter().find(|x| x.0 == n).expect("entry").1;
        sym::reset(&input);
        let r = std::panic::catch_unwind(|| f());
        let (hash, note) = sym::S.with(|s| {
            let mut s = s.borrow_mut();
            (s.hash, std::mem::take(&mut s.note))
        });
        let m = match r {
            Ok(()) => format!("OK {:016x}", hash),
            Err(e) => match e.downcast::<sym::Fail>() {
                Ok(f) => format!("FAIL {}", f.0),
                Err(e) if e.is::<sym::Assume>() => "ASSUME".to_string(),
                Err(_) => format!("PANIC {}", note.replace('\n', " ")),
            },
        };
        out.write_all(format!("{}\n", m).as_bytes()).unwrap();
    }
}
