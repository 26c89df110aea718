//! Runtime shared by the harnesses.
//!
//! Under cfg(carmen_sym) the functions below are the checker's own operations. Natively the same
//! harness replays one recorded path: `BIN CASE v1,v2,...` supplies the values of the symbolic
//! inputs and forks in call order.
pub mod gen;
pub mod near;
pub mod search;
pub mod stacks;

#[cfg(carmen_sym)]
mod rt {
    extern "C" {
        fn v_sym(bits: u32) -> u64;
        fn v_fork(n: u32) -> u32;
        fn v_assume(c: u8);
        fn v_check(c: u8, p: *const u8, n: usize);
        fn v_check_eq(a: u64, b: u64, p: *const u8, n: usize);
        fn v_cover(p: *const u8, n: usize);
        fn v_observe(x: u64);
        fn v_case() -> u32;
        fn v_pin(x: u64) -> u64;
        fn v_may_panic(on: u8);
    }
    pub fn sym(bits: u32) -> u64 {
        unsafe { v_sym(bits) }
    }
    pub fn fork(n: u32) -> u32 {
        unsafe { v_fork(n) }
    }
    pub fn assume(c: bool) {
        unsafe { v_assume(c as u8) }
    }
    pub fn check(c: bool, m: &'static str) {
        unsafe { v_check(c as u8, m.as_ptr(), m.len()) }
    }
    /// check(a == b), decided by the solver whenever either side depends on an input
    pub fn check_eq(a: u64, b: u64, m: &'static str) {
        unsafe { v_check_eq(a, b, m.as_ptr(), m.len()) }
    }
    pub fn cover(m: &'static str) {
        unsafe { v_cover(m.as_ptr(), m.len()) }
    }
    pub fn observe(x: u64) {
        unsafe { v_observe(x) }
    }
    pub fn case() -> u32 {
        unsafe { v_case() }
    }
    pub fn pin(x: u64) -> u64 {
        unsafe { v_pin(x) }
    }
    /// From here on, until turned off, a panic is an end the property allows.
    pub fn may_panic(on: bool) {
        unsafe { v_may_panic(on as u8) }
    }
}

#[cfg(not(carmen_sym))]
mod rt {
    use std::sync::Mutex;
    static IN: Mutex<(Vec<u64>, usize)> = Mutex::new((Vec::new(), 0));
    static OBS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    fn next() -> u64 {
        let mut i = IN.lock().unwrap();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).cloned().unwrap_or(0)
    }
    pub fn sym(bits: u32) -> u64 {
        let v = next();
        if bits >= 64 { v } else { v & ((1 << bits) - 1) }
    }
    pub fn fork(n: u32) -> u32 {
        let v = next() as u32;
        if n == 0 || v >= n {
            println!("ASSUME");
            std::process::exit(5);
        }
        v
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUME");
            std::process::exit(5);
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            println!("CHECK-FAILED: {}", m);
            std::process::exit(3);
        }
    }
    pub fn check_eq(a: u64, b: u64, m: &'static str) {
        check(a == b, m)
    }
    pub fn cover(_: &'static str) {}
    pub fn observe(x: u64) {
        OBS.lock().unwrap().push(x);
    }
    pub fn case() -> u32 {
        std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(0)
    }
    pub fn pin(x: u64) -> u64 {
        x
    }
    static MAY_PANIC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    pub fn may_panic(on: bool) {
        MAY_PANIC.store(on, std::sync::atomic::Ordering::Relaxed);
    }
    fn observed() {
        let s: Vec<String> = OBS.lock().unwrap().iter().map(|x| x.to_string()).collect();
        println!("OBS {}", s.join(","));
    }
    pub fn native(f: fn()) {
        let v: Vec<u64> = std::env::args()
            .nth(2)
            .unwrap_or_default()
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| s.parse().expect("input"))
            .collect();
        *IN.lock().unwrap() = (v, 0);
        std::panic::set_hook(Box::new(|p| {
            if MAY_PANIC.load(std::sync::atomic::Ordering::Relaxed) {
                observe(0x70616e6963);
                observed();
                std::process::exit(0);
            }
            println!("PANIC: {}", p.to_string().replace('\n', " "));
            std::process::exit(4);
        }));
        f();
        observed();
    }
}
pub use rt::*;

/// Define the harness entry point.
#[macro_export]
macro_rules! entry {
    ($f:path) => {
        #[cfg(carmen_sym)]
        #[no_mangle]
        pub extern "C" fn v_main() {
            $f()
        }
        #[cfg(carmen_sym)]
        #[no_mangle]
        pub extern "C" fn main(_: i32, _: *const *const u8) -> i32 {
            v_main();
            0
        }
        #[cfg(not(carmen_sym))]
        fn main() {
            $crate::native($f)
        }
    };
}

pub fn b() -> bool {
    sym(1) != 0
}
pub fn u8s() -> u8 {
    sym(8) as u8
}
pub fn u16s() -> u16 {
    sym(16) as u16
}
pub fn u32s() -> u32 {
    sym(32) as u32
}
pub fn u128s() -> u128 {
    let lo = sym(64) as u128;
    let hi = sym(64) as u128;
    (hi << 64) | lo
}
/// A symbolic number below `n`.
pub fn below(bits: u32, n: u64) -> u64 {
    let v = sym(bits);
    assume(v < n);
    v
}
