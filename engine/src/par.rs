//! Work sharing by fork(2): a busy process hands half of its pending states to a child.
use crate::exec::*;
use std::collections::BTreeMap;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU32, Ordering};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn getppid() -> i32;
    fn prctl(op: i32, a: u64) -> i32;
}

pub struct Shared {
    pub active: AtomicU32,
    pub failed: AtomicU32,
    pub total: AtomicU32,
    /// a violation was found: end early
    pub stop: AtomicU32,
}
pub struct Par {
    pub sh: &'static Shared,
    pub max: u32,
    pub out: String,
    pub children: Vec<i32>,
    pub is_child: bool,
    pub last: std::time::Instant,
}
pub fn shared() -> &'static Shared {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        let s = &mut *(p as *mut Shared);
        s.active = AtomicU32::new(1);
        s.failed = AtomicU32::new(0);
        s.total = AtomicU32::new(1);
        s.stop = AtomicU32::new(0);
        s
    }
}
pub fn try_split(g: &mut Eng) -> Result<(), String> {
    let Some(p) = &mut g.par else { return Ok(()) };
    if p.sh.failed.load(Ordering::Relaxed) != 0 {
        return Err("stopped: another worker failed".into());
    }
    if p.last.elapsed().as_millis() < 20 {
        return Ok(());
    }
    let a = p.sh.active.load(Ordering::Relaxed);
    if a >= p.max {
        return Ok(());
    }
    if p.sh.active.compare_exchange(a, a + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
        return Ok(());
    }
    p.sh.total.fetch_add(1, Ordering::SeqCst);
    p.last = std::time::Instant::now();
    // reap finished children so that process slots are freed
    p.children.retain(|c| unsafe {
        let mut st = 0;
        let r = waitpid(*c, &mut st, 1);
        if r == *c && st != 0 {
            p.sh.failed.store(1, Ordering::SeqCst);
        }
        r == 0
    });
    let pid = unsafe { fork() };
    if pid < 0 {
        p.sh.active.fetch_sub(1, Ordering::SeqCst);
        return Ok(());
    }
    if pid > 0 {
        p.children.push(pid);
        // parent keeps even positions
        let mut i = 0;
        g.work.retain(|_| {
            i += 1;
            i % 2 == 0
        });
        return Ok(());
    }
    unsafe {
        prctl(1, 9); // die with the parent
        let _ = getppid();
    }
    let mut i = 0;
    g.work.retain(|_| {
        i += 1;
        i % 2 == 1
    });
    let p = g.par.as_mut().unwrap();
    p.children = vec![];
    p.is_child = true;
    g.st = Stats::default();
    g.reached = BTreeMap::new();
    g.checked = BTreeMap::new();
    g.viols = BTreeMap::new();
    g.nviol = 0;
    g.samples = vec![];
    g.covered = Default::default();
    g.fork_at = BTreeMap::new();
    g.fn_steps = Default::default();
    g.s.queries = 0;
    g.s.unsat = 0;
    g.s.hits = 0;
    g.s.secs = 0.0;
    g.rng = g.rng.wrapping_mul(6364136223846793005).wrapping_add(std::process::id() as u64 | 1);
    let rc = crate::drain(g);
    std::process::exit(rc);
}
/// wait for all children; false if any failed
pub fn join(p: &mut Par) -> bool {
    let mut ok = true;
    for c in p.children.drain(..) {
        let mut st = 0;
        unsafe {
            if waitpid(c, &mut st, 0) == c && st != 0 {
                ok = false;
            }
        }
    }
    ok && p.sh.failed.load(Ordering::SeqCst) == 0
}
/// called between paths (no state is being run): the first pending state stays here
pub fn try_split_top(g: &mut Eng) -> Result<(), String> {
    if g.work.len() >= 2 {
        return try_split(g);
    }
    if let Some(p) = &g.par {
        if p.sh.failed.load(Ordering::Relaxed) != 0 {
            return Err("stopped: another worker failed".into());
        }
    }
    Ok(())
}
