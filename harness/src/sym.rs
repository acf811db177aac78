//! Harness interface: symbolic inputs, assumptions, assertions, observations.
extern "C" {
    fn rsym_sym(p: *mut u8, n: usize);
    fn rsym_assume(c: u32);
    fn rsym_check(c: u32, l: *const u8, n: usize);
    fn rsym_reach(l: *const u8, n: usize);
    fn rsym_observe(p: *const u8, n: usize);
    fn rsym_fork(p: *mut u8, n: usize);
    fn rsym_param(k: *const u8, n: usize, d: u64) -> u64;
    fn rsym_set_args(argc: u32, argv: *const *const u8);
    fn signal(n: i32, h: usize) -> usize;
    fn setrlimit(r: i32, p: *const u64) -> i32;
    fn rsym_debug(l: *const u8, n: usize);
}

#[inline(never)]
pub fn byte() -> u8 {
    let mut b = [0u8; 1];
    unsafe { rsym_sym(b.as_mut_ptr(), 1) };
    b[0]
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { rsym_assume(c as u32) }
}
#[inline(never)]
pub fn check(c: bool, label: &str) {
    unsafe { rsym_check(c as u32, label.as_ptr(), label.len()) }
}
#[inline(never)]
pub fn reach(label: &str) {
    unsafe { rsym_reach(label.as_ptr(), label.len()) }
}
#[inline(never)]
pub fn observe(b: &[u8]) {
    unsafe { rsym_observe(b.as_ptr(), b.len()) }
}
#[inline(never)]
pub fn debug(b: &str) {
    unsafe { rsym_debug(b.as_ptr(), b.len()) }
}
#[inline(never)]
pub fn param(k: &str, d: u64) -> u64 {
    unsafe { rsym_param(k.as_ptr(), k.len(), d) }
}
/// what std::env::args gives from now on
pub fn set_args(args: &[&str]) {
    let v: Vec<Vec<u8>> = args.iter().map(|a| [a.as_bytes(), &[0]].concat()).collect();
    let mut p: Vec<*const u8> = v.iter().map(|a| a.as_ptr()).collect();
    p.push(std::ptr::null());
    unsafe { rsym_set_args(args.len() as u32, p.as_ptr()) };
    std::mem::forget((v, p));
}
/// files cannot grow beyond `n` bytes from now on: writes are cut short, then fail
pub fn limit_files(n: u64) {
    unsafe {
        signal(25, 1); // SIGXFSZ is ignored
        let l = [n, u64::MAX];
        setrlimit(1, l.as_ptr());
    }
}
/// a symbolic byte below `n`
pub fn below(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    b
}
/// a symbolic byte of `lo..=hi`
pub fn range(lo: u8, hi: u8) -> u8 {
    let b = byte();
    assume(b >= lo && b <= hi);
    b
}
/// a symbolic number below `n`, made concrete (the path forks per value)
pub fn pick(n: u8) -> usize {
    if n <= 1 {
        return 0;
    }
    let mut b = [below(n)];
    unsafe { rsym_fork(b.as_mut_ptr(), 1) };
    b[0] as usize
}
pub fn flag() -> bool {
    pick(2) == 1
}
/// any byte that satisfies `ok` (256 entry table, one constraint)
pub fn of(alphabet: &[u8]) -> u8 {
    let mut t = [0u32; 256];
    for a in alphabet {
        t[*a as usize] = 1;
    }
    let b = byte();
    unsafe { rsym_assume(t[b as usize]) };
    b
}

extern "C" {
    fn rsym_done();
}
/// native entry: runs the harness named by the first argument
pub fn native(table: &[(&str, extern "C" fn())]) {
    let name = std::env::args().nth(1).expect("harness name");
    for (n, f) in table {
        if *n == name {
            f();
            unsafe { rsym_done() };
            return;
        }
    }
    panic!("no harness {name}");
}
#[macro_export]
macro_rules! harnesses {
    ($($export:ident => $f:path),* $(,)?) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $export() { $f() })*
        fn main() { sym::native(&[$((stringify!($export), $export as extern "C" fn())),*]) }
    };
}
