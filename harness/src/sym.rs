//! Bindings to the symbolic engine (or to `sym_rt.c` when running natively).

extern "C" {
    fn __sym_range(lo: u64, hi: u64) -> u64;
    fn __sym_choose(n: u64) -> u64;
    fn __sym_assume(b: bool);
    fn __sym_check(b: bool, p: *const u8, n: u64);
    fn __sym_reach(id: u32);
    fn __sym_note(kind: u32, p: *const u8, n: u64);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_concretize_bytes(p: *const u8, n: u64);
    fn __sym_seed(s: u64);
    fn __sym_param(i: u64) -> u64;
    fn sym_rt_init(file: *const u8, np: i32, ps: *const u64);
    fn sym_rt_done() -> !;
}

/// Symbolic value in `lo..=hi` (no fork until the code under test branches on it).
pub fn range(lo: usize, hi: usize) -> usize {
    unsafe { __sym_range(lo as u64, hi as u64) as usize }
}
/// Symbolic value in `0..n`, case-split immediately (structure of the input).
pub fn choose(n: usize) -> usize {
    unsafe { __sym_choose(n as u64) as usize }
}
/// Like `choose`, but only some values if there are many: both ends, the middle and the neighbourhood of
/// powers of two.
pub fn pick(n: usize) -> usize {
    if n <= 64 {
        return choose(n);
    }
    let v = [0, 1, 63, 64, n / 2, 127, 128, 255, 256, n - 2, n - 1];
    let mut v: Vec<usize> = v.iter().cloned().filter(|x| *x < n).collect();
    v.sort();
    v.dedup();
    v[choose(v.len())]
}
/// Case-split boolean.
pub fn flip() -> bool {
    choose(2) == 1
}
/// Symbolic byte in `lo..=hi`.
pub fn byte(lo: u8, hi: u8) -> u8 {
    unsafe { __sym_range(lo as u64, hi as u64) as u8 }
}
pub fn assume(b: bool) {
    unsafe { __sym_assume(b) }
}
pub fn check(b: bool, msg: &str) {
    unsafe { __sym_check(b, msg.as_ptr(), msg.len() as u64) }
}
/// Vacuity witness: the driver requires certain ids to be reached on completed paths.
pub fn reach(id: u32) {
    unsafe { __sym_reach(id) }
}
/// Record an observable output of the code under test (compared with the native replay).
pub fn note(kind: u32, b: &[u8]) {
    unsafe { __sym_note(kind, b.as_ptr(), b.len() as u64) }
}
pub fn concretize(v: usize) -> usize {
    unsafe { __sym_concretize(v as u64) as usize }
}
pub fn concretize_bytes(b: &[u8]) {
    unsafe { __sym_concretize_bytes(b.as_ptr(), b.len() as u64) }
}
/// Select the random bytes the next `getrandom` (hash-map seeds) hands out.
pub fn seed(s: usize) {
    unsafe { __sym_seed(s as u64) }
}
/// Bounds and shard numbers given by the driver.
pub fn param(i: usize) -> usize {
    unsafe { __sym_param(i as u64) as usize }
}

/// One-byte string with a symbolic character in `lo..=hi` (ASCII).
pub fn sym_char(lo: u8, hi: u8) -> String {
    let b = vec![byte(lo, hi)];
    unsafe { String::from_utf8_unchecked(b) }
}
/// String from ASCII bytes (possibly symbolic) without running UTF-8 validation.
pub fn string(b: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn lit(c: char, i: usize) -> String {
    let mut s = String::new();
    s.push(c);
    s.push(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[i % 62] as char);
    if i >= 62 {
        s += &(i / 62).to_string();
    }
    s
}

/// Native entry point: `exe ENTRY VALUES_FILE PARAM...`
pub fn native_main(table: &[(&str, extern "C" fn())]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        std::process::exit(20);
    }
    let file = format!("{}\0", args[2]);
    let ps: Vec<u64> = args[3..].iter().map(|s| s.parse().unwrap()).collect();
    unsafe { sym_rt_init(file.as_ptr(), ps.len() as i32, ps.as_ptr()) };
    for (n, f) in table {
        if *n == args[1] {
            f();
            unsafe { sym_rt_done() };
        }
    }
    std::process::exit(20);
}

#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        fn main() {
            $crate::native_main(&[$((stringify!($name), $name as extern "C" fn())),*]);
        }
    };
}
