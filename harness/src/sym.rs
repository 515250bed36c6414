//! The harness interface: symbolic inputs, assumptions, assertions.
//! Under the engine these are external functions the executor models; in the `replay`
//! build they read one concrete assignment from a file and run natively.

#[cfg(not(feature = "replay"))]
mod imp {
    extern "C" {
        fn sym_int(n: *const u8, l: usize, lo: i64, hi: i64) -> i64;
        fn sym_f64(n: *const u8, l: usize, lo: i64, hi: i64, k: i64) -> f64;
        fn sym_assume(b: bool);
        fn sym_assert(b: bool, m: *const u8, l: usize);
        fn sym_cover(m: *const u8, l: usize);
        fn sym_trace(v: u64);
        fn sym_note(m: *const u8, l: usize);
        fn sym_conc(v: u64) -> u64;
        fn sym_feq(a: f64, b: f64) -> u8;
        fn sym_fle(a: f64, b: f64) -> u8;
        fn sym_fail(m: *const u8, l: usize) -> !;
        fn sym_ite(c: bool, a: f64, b: f64) -> f64;
        fn sym_end();
    }
    pub fn int(n: &str, lo: i64, hi: i64) -> i64 { unsafe { sym_int(n.as_ptr(), n.len(), lo, hi) } }
    pub fn num(n: &str, lo: i64, hi: i64, k: i64) -> f64 { unsafe { sym_f64(n.as_ptr(), n.len(), lo, hi, k) } }
    pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    pub fn check(b: bool, m: &str) { unsafe { sym_assert(b, m.as_ptr(), m.len()) } }
    pub fn cover(m: &str) { unsafe { sym_cover(m.as_ptr(), m.len()) } }
    pub fn trace(v: u64) { unsafe { sym_trace(v) } }
    pub fn note(m: &str) { unsafe { sym_note(m.as_ptr(), m.len()) } }
    pub fn conc(v: i64) -> i64 { unsafe { sym_conc(v as u64) as i64 } }
    /// equality / order as an unforked boolean
    pub fn feq(a: f64, b: f64) -> bool { unsafe { sym_feq(a, b) != 0 } }
    pub fn fle(a: f64, b: f64) -> bool { unsafe { sym_fle(a, b) != 0 } }
    pub fn fail(m: &str) -> ! { unsafe { sym_fail(m.as_ptr(), m.len()) } }
    pub fn ite(c: bool, a: f64, b: f64) -> f64 { unsafe { sym_ite(c, a, b) } }
    /// the path is complete
    pub fn end() { unsafe { sym_end() } }
}

#[cfg(feature = "replay")]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        pub static IN: RefCell<HashMap<String, i64>> = RefCell::new(HashMap::new());
        pub static OCC: RefCell<HashMap<String, usize>> = RefCell::new(HashMap::new());
        pub static TR: RefCell<Vec<u64>> = RefCell::new(Vec::new());
        pub static NOTES: RefCell<Vec<String>> = RefCell::new(Vec::new());
    }
    fn get(n: &str, lo: i64, hi: i64) -> i64 {
        let k = OCC.with(|o| { let mut o = o.borrow_mut(); let e = o.entry(n.to_string()).or_insert(0); *e += 1; *e });
        let v = IN.with(|i| i.borrow().get(&format!("{}#{}", n, k)).cloned().unwrap_or(lo));
        if v < lo || v > hi { fail(&format!("input {}#{} = {} out of range", n, k, v)) }
        v
    }
    fn finish(res: &str, msg: &str, code: i32) -> ! {
        use std::io::Write;
        let o = std::io::stdout();
        let mut o = o.lock();
        NOTES.with(|n| for s in n.borrow().iter() { let _ = writeln!(o, "NOTE {}", s.replace('\n', "\\n")); });
        TR.with(|t| { let _ = writeln!(o, "TRACE {}", t.borrow().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")); });
        let _ = writeln!(o, "{} {}", res, msg.replace('\n', "\\n"));
        let _ = o.flush();
        extern "C" { fn _exit(c: i32) -> !; }
        unsafe { _exit(code) }
    }
    pub fn end() { done() }
    pub fn done() -> ! { finish("OK", "", 0) }
    pub fn panicked(m: &str) -> ! { finish("PANIC", m, 4) }
    pub fn int(n: &str, lo: i64, hi: i64) -> i64 { get(n, lo, hi) }
    pub fn num(n: &str, lo: i64, hi: i64, k: i64) -> f64 { get(n, lo, hi) as f64 * (0.5f64).powi(k as i32) }
    pub fn assume(b: bool) { if !b { finish("ASSUME", "", 5) } }
    pub fn check(b: bool, m: &str) { if !b { finish("VIOL", m, 3) } }
    pub fn cover(_m: &str) {}
    pub fn trace(v: u64) { TR.with(|t| t.borrow_mut().push(v)) }
    pub fn note(m: &str) { NOTES.with(|n| n.borrow_mut().push(m.to_string())) }
    pub fn conc(v: i64) -> i64 { v }
    pub fn feq(a: f64, b: f64) -> bool { a == b }
    pub fn fle(a: f64, b: f64) -> bool { a <= b }
    pub fn fail(m: &str) -> ! { finish("HARNESS", m, 6) }
    pub fn ite(c: bool, a: f64, b: f64) -> f64 { if c { a } else { b } }
}

pub use self::imp::*;

/// index 0..n, concrete on this path
pub fn pick(n: &str, cnt: usize) -> usize {
    if cnt <= 1 { return 0; }
    conc(int(n, 0, cnt as i64 - 1)) as usize
}
pub fn flag(n: &str) -> bool { pick(n, 2) == 1 }
