//! Intrinsics, libc model (in-memory file system) and the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Intr {
    UMin,
    UMax,
    SMin,
    SMax,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Abs,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitRev,
    FshL,
    FshR,
    SCmp,
    UCmp,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ovf {
    UAdd,
    SAdd,
    USub,
    SSub,
    UMul,
    SMul,
}
#[derive(Clone, Debug)]
pub enum Ext {
    None,
    Nop,
    Ident,
    IsConst,
    Copy,
    Set,
    Assume,
    Trap,
    Int(Intr),
    Ov(Ovf),
    Reduce(BinOp),
    Zero,
    Libc(Rc<str>),
    Override(Rc<str>),
}

pub fn classify(name: &str, defined: bool) -> Ext {
    if defined {
        return Ext::None;
    }
    if let Some(n) = name.strip_prefix("llvm.") {
        let int = |k| Ext::Int(k);
        return if n.starts_with("lifetime.")
            || n.starts_with("experimental.noalias")
            || n.starts_with("dbg.")
            || n.starts_with("assume")
            || n == "x86.sse2.pause"
            || n.starts_with("prefetch")
            || n.starts_with("invariant.")
        {
            Ext::Nop
        } else if n.starts_with("memcpy.") || n.starts_with("memmove.") {
            Ext::Copy
        } else if n.starts_with("memset.") {
            Ext::Set
        } else if n.starts_with("threadlocal.address")
            || n.starts_with("expect.")
            || n.starts_with("launder.")
            || n.starts_with("strip.")
            || n.starts_with("ssa.copy")
        {
            Ext::Ident
        } else if n.starts_with("is.constant") {
            Ext::IsConst
        } else if n == "trap" || n == "ubsantrap" {
            Ext::Trap
        } else if n.starts_with("umin.") {
            int(Intr::UMin)
        } else if n.starts_with("umax.") {
            int(Intr::UMax)
        } else if n.starts_with("smin.") {
            int(Intr::SMin)
        } else if n.starts_with("smax.") {
            int(Intr::SMax)
        } else if n.starts_with("uadd.sat.") {
            int(Intr::UAddSat)
        } else if n.starts_with("usub.sat.") {
            int(Intr::USubSat)
        } else if n.starts_with("sadd.sat.") {
            int(Intr::SAddSat)
        } else if n.starts_with("ssub.sat.") {
            int(Intr::SSubSat)
        } else if n.starts_with("abs.") {
            int(Intr::Abs)
        } else if n.starts_with("ctlz.") {
            int(Intr::Ctlz)
        } else if n.starts_with("cttz.") {
            int(Intr::Cttz)
        } else if n.starts_with("ctpop.") {
            int(Intr::Ctpop)
        } else if n.starts_with("bswap.") {
            int(Intr::Bswap)
        } else if n.starts_with("bitreverse.") {
            int(Intr::BitRev)
        } else if n.starts_with("fshl.") {
            int(Intr::FshL)
        } else if n.starts_with("fshr.") {
            int(Intr::FshR)
        } else if n.starts_with("scmp.") {
            int(Intr::SCmp)
        } else if n.starts_with("ucmp.") {
            int(Intr::UCmp)
        } else if n.starts_with("uadd.with") {
            Ext::Ov(Ovf::UAdd)
        } else if n.starts_with("sadd.with") {
            Ext::Ov(Ovf::SAdd)
        } else if n.starts_with("usub.with") {
            Ext::Ov(Ovf::USub)
        } else if n.starts_with("ssub.with") {
            Ext::Ov(Ovf::SSub)
        } else if n.starts_with("umul.with") {
            Ext::Ov(Ovf::UMul)
        } else if n.starts_with("smul.with") {
            Ext::Ov(Ovf::SMul)
        } else if n.starts_with("vector.reduce.or.") {
            Ext::Reduce(BinOp::Or)
        } else if n.starts_with("vector.reduce.and.") {
            Ext::Reduce(BinOp::And)
        } else if n.starts_with("vector.reduce.add.") {
            Ext::Reduce(BinOp::Add)
        } else if n.starts_with("vector.reduce.xor.") {
            Ext::Reduce(BinOp::Xor)
        } else if n == "x86.xgetbv" {
            Ext::Zero
        } else {
            Ext::Libc(name.into())
        };
    }
    Ext::Libc(name.into())
}

pub fn weak_ok(n: &str) -> bool {
    matches!(n, "getrandom" | "__cxa_thread_atexit_impl")
}

#[derive(Clone)]
pub enum FdKind {
    File(String),
    Dir(String),
    Full,
    Null,
    Stdin,
    Stdout,
    Stderr,
}
#[derive(Clone)]
pub struct Fd {
    pub kind: FdKind,
    pub off: usize,
    pub append: bool,
    pub rd: bool,
    pub wr: bool,
}
#[derive(Clone)]
pub struct DirStream {
    pub names: Vec<(String, bool)>,
    pub pos: usize,
    pub buf: u64,
}
#[derive(Clone, Default)]
pub struct ExtState {
    pub files: BTreeMap<String, Rc<Obj>>,
    pub dirs: BTreeSet<String>,
    pub fds: Vec<Option<Fd>>,
    pub stdout: Rc<Obj>,
    pub stderr: Rc<Obj>,
    pub errno: u64,
    pub cwd: String,
    pub keys: Vec<u64>,
    pub dirstreams: BTreeMap<u64, DirStream>,
    pub on_exit: Vec<(u64, u64)>,
    pub exit_code: Option<i32>,
    pub env: BTreeMap<String, u64>,
    /// RLIMIT_FSIZE
    pub fsize: Option<u64>,
}
impl ExtState {
    pub fn stderr_text(&self, x: &mut Ctx, model: &[u8]) -> String {
        let mut v = vec![];
        for i in 0..self.stderr.data.len() {
            let (b, e) = self.stderr.get(i);
            v.push(if e != 0 { x.eval(e, model) as u8 } else { b });
        }
        String::from_utf8_lossy(&v).to_string()
    }
    fn norm(&self, p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", self.cwd, p) };
        let mut out: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        format!("/{}", out.join("/"))
    }
}

const ENOENT: u64 = 2;
const EBADF: u64 = 9;
const EEXIST: u64 = 17;
const ENOTDIR: u64 = 20;
const EISDIR: u64 = 21;
const EINVAL: u64 = 22;
const ENOSPC: u64 = 28;
const ERANGE: u64 = 34;

impl Eng {
    fn errno(&mut self, st: &mut State, e: u64) -> Res<()> {
        let a = st.ext.errno;
        self.store(st, a, 4, &Val::I(e))
    }
    fn fail32(&mut self, st: &mut State, e: u64) -> Res<Option<Val>> {
        self.errno(st, e)?;
        Ok(Some(Val::I(0xffff_ffff)))
    }
    fn fail64(&mut self, st: &mut State, e: u64) -> Res<Option<Val>> {
        self.errno(st, e)?;
        Ok(Some(Val::I(u64::MAX)))
    }

    fn intr(&mut self, st: &State, k: &Intr, w: u16, a: &[SV], rw: u16) -> Res<Val> {
        let all_c = a.iter().all(|v| matches!(v, SV::I(_)));
        let c = |i: usize| match a[i] {
            SV::I(v) => v,
            _ => 0,
        };
        let m = mask(w) as u64;
        if all_c && w <= 64 {
            let s = |v: u64| sx(v as u128, w) as i64;
            let r = match k {
                Intr::UMin => c(0).min(c(1)),
                Intr::UMax => c(0).max(c(1)),
                Intr::SMin => s(c(0)).min(s(c(1))) as u64 & m,
                Intr::SMax => s(c(0)).max(s(c(1))) as u64 & m,
                Intr::UAddSat => {
                    let t = c(0) as u128 + c(1) as u128;
                    if t > m as u128 {
                        m
                    } else {
                        t as u64
                    }
                }
                Intr::USubSat => c(0).saturating_sub(c(1)),
                Intr::SAddSat | Intr::SSubSat => {
                    let t = if *k == Intr::SAddSat {
                        s(c(0)) as i128 + s(c(1)) as i128
                    } else {
                        s(c(0)) as i128 - s(c(1)) as i128
                    };
                    let hi = (m >> 1) as i128;
                    t.clamp(-hi - 1, hi) as u64 & m
                }
                Intr::Abs => s(c(0)).wrapping_abs() as u64 & m,
                Intr::Ctlz => c(0).leading_zeros() as u64 - (64 - w as u64),
                Intr::Cttz => {
                    if c(0) == 0 {
                        w as u64
                    } else {
                        c(0).trailing_zeros() as u64
                    }
                }
                Intr::Ctpop => c(0).count_ones() as u64,
                Intr::Bswap => c(0).swap_bytes() >> (64 - w as u32),
                Intr::BitRev => c(0).reverse_bits() >> (64 - w as u32),
                Intr::FshL => {
                    let n = c(2) % w as u64;
                    if n == 0 {
                        c(0)
                    } else {
                        (c(0) << n | c(1) >> (w as u64 - n)) & m
                    }
                }
                Intr::FshR => {
                    let n = c(2) % w as u64;
                    if n == 0 {
                        c(1)
                    } else {
                        (c(0) << (w as u64 - n) | c(1) >> n) & m
                    }
                }
                Intr::SCmp => s(c(0)).cmp(&s(c(1))) as i8 as i64 as u64 & mask(rw) as u64,
                Intr::UCmp => c(0).cmp(&c(1)) as i8 as i64 as u64 & mask(rw) as u64,
            };
            return Ok(Val::I(r));
        }
        let es: Vec<E> = a.iter().map(|v| self.e(*v, w)).collect();
        let r = match k {
            Intr::UMin | Intr::UMax | Intr::SMin | Intr::SMax => {
                let p = if matches!(k, Intr::UMin | Intr::UMax) { Pred::Ult } else { Pred::Slt };
                let lt = self.x.cmp(p, es[0], es[1]);
                if matches!(k, Intr::UMin | Intr::SMin) {
                    self.x.ite(lt, es[0], es[1])
                } else {
                    self.x.ite(lt, es[1], es[0])
                }
            }
            Intr::UAddSat => {
                let s = self.x.bin(Op::Add, es[0], es[1]);
                let o = self.x.cmp(Pred::Ult, s, es[0]);
                let mx = self.x.cst(w, mask(w));
                self.x.ite(o, mx, s)
            }
            Intr::USubSat => {
                let s = self.x.bin(Op::Sub, es[0], es[1]);
                let o = self.x.cmp(Pred::Ult, es[0], es[1]);
                let z = self.x.cst(w, 0);
                self.x.ite(o, z, s)
            }
            Intr::SAddSat | Intr::SSubSat => {
                // rare: decide it value by value
                let mut c = vec![];
                for v in a {
                    c.push(SV::I(self.conc(st, *v)?));
                }
                return self.intr(st, k, w, &c, rw);
            }
            Intr::Abs => {
                let z = self.x.cst(w, 0);
                let n = self.x.bin(Op::Sub, z, es[0]);
                let neg = self.x.cmp(Pred::Slt, es[0], z);
                self.x.ite(neg, n, es[0])
            }
            Intr::Cttz | Intr::Ctlz => {
                let mut acc = self.x.cst(w, w as u128);
                for i in 0..w {
                    // later iterations take precedence
                    let bit = if *k == Intr::Cttz { w - 1 - i } else { i };
                    let b = self.x.extract(bit, 1, es[0]);
                    let val = if *k == Intr::Cttz { bit } else { w - 1 - bit };
                    let v = self.x.cst(w, val as u128);
                    acc = self.x.ite(b, v, acc);
                }
                acc
            }
            Intr::Ctpop => {
                let mut acc = self.x.cst(w, 0);
                for i in 0..w {
                    let b = self.x.extract(i, 1, es[0]);
                    let b = self.x.zext(w, b);
                    acc = self.x.bin(Op::Add, acc, b);
                }
                acc
            }
            Intr::Bswap => {
                let n = w / 8;
                let mut acc = self.x.extract(0, 8, es[0]);
                for i in 1..n {
                    let b = self.x.extract(i * 8, 8, es[0]);
                    acc = self.x.concat(acc, b);
                }
                acc
            }
            Intr::BitRev => {
                let mut acc = self.x.extract(0, 1, es[0]);
                for i in 1..w {
                    let b = self.x.extract(i, 1, es[0]);
                    acc = self.x.concat(acc, b);
                }
                acc
            }
            Intr::FshL | Intr::FshR => {
                let n = self.conc(st, a[2])? % w as u64;
                let n = if *k == Intr::FshR { (w as u64 - n) % w as u64 } else { n };
                if n == 0 {
                    if *k == Intr::FshR {
                        es[1]
                    } else {
                        es[0]
                    }
                } else {
                    let h = self.x.extract(0, w - n as u16, es[0]);
                    let l = self.x.extract(w - n as u16, n as u16, es[1]);
                    self.x.concat(h, l)
                }
            }
            Intr::SCmp | Intr::UCmp => {
                let p = if *k == Intr::UCmp { Pred::Ult } else { Pred::Slt };
                let lt = self.x.cmp(p, es[0], es[1]);
                let gt = self.x.cmp(p, es[1], es[0]);
                let (m1, z, o) =
                    (self.x.cst(rw, mask(rw)), self.x.cst(rw, 0), self.x.cst(rw, 1));
                let t = self.x.ite(gt, o, z);
                self.x.ite(lt, m1, t)
            }
        };
        self.fin(st, r)
    }
    fn overflow(&mut self, st: &State, k: &Ovf, w: u16, a: SV, b: SV) -> Res<Val> {
        if w > 64 {
            return err("wide overflow intrinsic");
        }
        if let (SV::I(a), SV::I(b)) = (a, b) {
            let s = |v: u64| sx(v as u128, w);
            let (r, o) = match k {
                Ovf::UAdd => {
                    let t = a as u128 + b as u128;
                    (t, t > mask(w))
                }
                Ovf::USub => ((a as u128).wrapping_sub(b as u128), a < b),
                Ovf::UMul => {
                    let t = a as u128 * b as u128;
                    (t, t > mask(w))
                }
                _ => {
                    let t = match k {
                        Ovf::SAdd => s(a) + s(b),
                        Ovf::SSub => s(a) - s(b),
                        _ => s(a) * s(b),
                    };
                    (t as u128, sx(t as u128 & mask(w), w) != t)
                }
            };
            return Ok(Val::A(Rc::new(vec![Val::I((r & mask(w)) as u64), Val::I(o as u64)])));
        }
        let (ea, eb) = (self.e(a, w), self.e(b, w));
        let (r, o) = match k {
            Ovf::UAdd => {
                let r = self.x.bin(Op::Add, ea, eb);
                (r, self.x.cmp(Pred::Ult, r, ea))
            }
            Ovf::USub => {
                let r = self.x.bin(Op::Sub, ea, eb);
                (r, self.x.cmp(Pred::Ult, ea, eb))
            }
            Ovf::UMul => {
                let (x, y) = (self.x.zext(2 * w, ea), self.x.zext(2 * w, eb));
                let r = self.x.bin(Op::Mul, x, y);
                let hi = self.x.extract(w, w, r);
                let z = self.x.cst(w, 0);
                let q = self.x.eq(hi, z);
                (self.x.extract(0, w, r), self.x.not(q))
            }
            _ => {
                let (x, y) = (self.x.sext(2 * w, ea), self.x.sext(2 * w, eb));
                let op = match k {
                    Ovf::SAdd => Op::Add,
                    Ovf::SSub => Op::Sub,
                    _ => Op::Mul,
                };
                let t = self.x.bin(op, x, y);
                let r = self.x.extract(0, w, t);
                let back = self.x.sext(2 * w, r);
                let q = self.x.eq(back, t);
                (r, self.x.not(q))
            }
        };
        let v = vec![self.fin(st, r)?, self.fin(st, o)?];
        Ok(Val::A(Rc::new(v)))
    }

    pub fn external(
        &mut self,
        st: &mut State,
        f: u32,
        args: &[Val],
        c: &CallI,
    ) -> Res<Option<Val>> {
        let ext = self.exts[f as usize].clone();
        match ext {
            Ext::Nop => Ok(Some(Val::I(0))),
            Ext::Zero => Ok(Some(Val::I(0))),
            Ext::Ident => Ok(Some(args[0].clone())),
            Ext::IsConst => Ok(Some(Val::I(0))),
            Ext::Assume => Ok(Some(Val::I(0))),
            Ext::Trap => Err(Stop::Abort),
            Ext::Copy => {
                let n = self.vconc(st, &args[2])?;
                if n > 0 {
                    let d = self.vconc(st, &args[0])?;
                    let s = self.vconc(st, &args[1])?;
                    self.copy(st, d, s, n as usize)?;
                }
                Ok(Some(Val::I(0)))
            }
            Ext::Set => {
                let n = self.vconc(st, &args[2])? as usize;
                if n > 0 {
                    let d = self.vconc(st, &args[0])?;
                    let v = match self.vsv(st, &args[1])? {
                        SV::I(b) => (b as u8, 0),
                        SV::S(e) => (0, e),
                    };
                    self.write_bytes(st, d, &vec![v; n])?;
                }
                Ok(Some(Val::I(0)))
            }
            Ext::Int(k) => {
                let rw = self.p.scalar_w(c.ret).or(self.p.elem_w(c.ret)).unwrap_or(64);
                if let Some(w) = self.p.scalar_w(c.tys[0]) {
                    let n = match k {
                        Intr::Abs | Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap
                        | Intr::BitRev => 1,
                        Intr::FshL | Intr::FshR => 3,
                        _ => 2,
                    };
                    if w > 64 {
                        return err("wide intrinsic");
                    }
                    let mut a = vec![];
                    for v in &args[..n] {
                        a.push(self.vsv(st, v)?);
                    }
                    Ok(Some(self.intr(st, &k, w, &a, rw)?))
                } else {
                    let w = self.p.elem_w(c.tys[0]).ok_or(Stop::Err("intr".into()))?;
                    let vs: Vec<Rc<Vec<Val>>> = args
                        .iter()
                        .filter_map(|v| if let Val::A(l) = v { Some(l.clone()) } else { None })
                        .collect();
                    let mut o = vec![];
                    for i in 0..vs[0].len() {
                        let mut a = vec![];
                        for l in &vs {
                            a.push(self.vsv(st, &l[i])?);
                        }
                        o.push(self.intr(st, &k, w, &a, rw)?);
                    }
                    Ok(Some(Val::A(Rc::new(o))))
                }
            }
            Ext::Ov(k) => {
                let w = self.p.scalar_w(c.tys[0]).ok_or(Stop::Err("ovf".into()))?;
                let a = self.vsv(st, &args[0])?;
                let b = self.vsv(st, &args[1])?;
                Ok(Some(self.overflow(st, &k, w, a, b)?))
            }
            Ext::Reduce(op) => {
                let w = self.p.elem_w(c.tys[0]).ok_or(Stop::Err("reduce".into()))?;
                let Val::A(l) = &args[0] else { return err("reduce") };
                let mut acc = l[0].clone();
                for v in &l[1..] {
                    let a = self.vsv(st, &acc)?;
                    let b = self.vsv(st, v)?;
                    acc = self.bin(st, op, w, a, b)?;
                }
                Ok(Some(acc))
            }
            Ext::Libc(n) | Ext::Override(n) => self.libc(st, &n, args),
            Ext::None => err("call of undefined function"),
        }
    }

    fn label(&mut self, st: &mut State, p: &Val, n: &Val) -> Res<u32> {
        let a = self.vconc(st, p)?;
        let n = self.vconc(st, n)? as usize;
        let b = self.read_bytes(st, a, n)?;
        let s = String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).to_string();
        if let Some(i) = self.labmap.get(&s) {
            return Ok(*i);
        }
        self.labels.push(s.clone());
        let i = self.labels.len() as u32 - 1;
        self.labmap.insert(s, i);
        Ok(i)
    }
    fn truth(&mut self, st: &State, v: &Val) -> Res<SV> {
        match self.vsv(st, v)? {
            SV::I(x) => Ok(SV::I((x != 0) as u64)),
            SV::S(e) => {
                let w = self.x.w(e);
                let z = self.x.cst(w, 0);
                let q = self.x.eq(e, z);
                let r = self.x.not(q);
                Ok(match self.x.is_const(r) {
                    Some(c) => SV::I(c as u64),
                    None => SV::S(r),
                })
            }
        }
    }

    fn libc(&mut self, st: &mut State, name: &str, a: &[Val]) -> Res<Option<Val>> {
        macro_rules! n {
            ($i:expr) => {
                self.vconc(st, &a[$i])?
            };
        }
        let ok = |v: u64| -> Res<Option<Val>> { Ok(Some(Val::I(v))) };
        match name {
            // ------------------------------------------------ harness interface
            "rsym_sym" => {
                let p = n!(0);
                let n = n!(1) as usize;
                let mut b = vec![];
                for _ in 0..n {
                    let v = st.nvars;
                    st.nvars += 1;
                    Rc::make_mut(&mut st.dom).push([u64::MAX; 4]);
                    Rc::make_mut(&mut st.model).push(0);
                    b.push((0u8, self.x.var(v)));
                }
                self.write_bytes(st, p, &b)?;
                ok(0)
            }
            "rsym_assume" => match self.truth(st, &a[0])? {
                SV::I(0) => Err(Stop::Assume),
                SV::I(_) => ok(0),
                SV::S(e) => match self.feas(st, e)? {
                    None => Err(Stop::Assume),
                    Some(m) => {
                        self.add(st, e, m);
                        ok(0)
                    }
                },
            },
            "rsym_check" => {
                let l = self.label(st, &a[1], &a[2])?;
                st.checks += 1;
                let name = self.labels[l as usize].clone();
                *self.checked.entry(name.clone()).or_default() += 1;
                match self.truth(st, &a[0])? {
                    SV::I(0) => Err(Stop::Fail(name)),
                    SV::I(_) => ok(0),
                    SV::S(e) => {
                        st.symchecks += 1;
                        let ne = self.x.not(e);
                        if let Some(m) = self.feas(st, ne)? {
                            self.violation(st, name, &m);
                            match self.feas(st, e)? {
                                None => return Err(Stop::Assume),
                                Some(m) => self.add(st, e, m),
                            }
                        }
                        ok(0)
                    }
                }
            }
            "rsym_reach" => {
                let l = self.label(st, &a[0], &a[1])?;
                if !st.reach.contains(&l) {
                    Rc::make_mut(&mut st.reach).push(l);
                }
                ok(0)
            }
            "rsym_observe" => {
                let p = n!(0);
                let n = n!(1) as usize;
                let b = self.read_bytes(st, p, n)?;
                let o = Rc::make_mut(&mut st.obs);
                for (x, e) in b {
                    o.push(x, e);
                }
                o.push(0xfe, 0);
                ok(0)
            }
            // force the value of some bytes to be concrete (forks)
            "rsym_fork" => {
                let p = n!(0);
                let n = n!(1);
                for i in 0..n {
                    let v = self.load(st, p + i, 1, 8)?;
                    if let Val::S(e) = v {
                        let c = match self.resolve(st, e) {
                            SV::I(c) => c,
                            SV::S(e) => return Err(Stop::Split(e)),
                        };
                        self.store(st, p + i, 1, &Val::I(c))?;
                    }
                }
                ok(0)
            }
            "rsym_param" => {
                let l = self.label(st, &a[0], &a[1])?;
                let s = self.labels[l as usize].clone();
                match self.params.get(&s) {
                    Some(v) => ok(*v),
                    None => Ok(Some(a[2].clone())),
                }
            }
            "rsym_done" => Err(Stop::Done),
            "rsym_debug" => {
                let p = n!(0);
                let n = n!(1) as usize;
                let b = self.read_bytes(st, p, n)?;
                let s: Vec<String> = b
                    .iter()
                    .map(|(x, e)| if *e != 0 { format!("<{}>", self.x.show(*e, 3)) } else { (*x as char).to_string() })
                    .collect();
                eprintln!("debug: {}", s.concat());
                ok(0)
            }
            // the arguments of the process: what the init_array entry of std does with them
            "rsym_set_args" => {
                let (c, v) = (a[0].clone(), a[1].clone());
                let f = self.p.fns.iter().position(|f| f.defined && f.name.contains("ARGV_INIT_ARRAY"));
                let Some(fi) = f.map(|i| i as u32) else { return err("ARGV_INIT_ARRAY") };
                self.enter(st, fi, vec![c, v, Val::I(0)])?;
                Ok(None)
            }
            // ------------------------------------------------ memory
            "malloc" => {
                let n = n!(0);
                if n > 1 << 28 {
                    return err(format!("allocation of {n} bytes"));
                }
                let p = st.mem.malloc(n as usize);
                ok(p)
            }
            "calloc" => {
                let n = n!(0) * n!(1);
                if n > 1 << 28 {
                    return err(format!("allocation of {n} bytes"));
                }
                let p = st.mem.malloc(n as usize);
                ok(p)
            }
            "realloc" => {
                let p = n!(0);
                let n = n!(1) as usize;
                if p == 0 {
                    let p = st.mem.malloc(n);
                    return ok(p);
                }
                if n > 1 << 28 {
                    return err(format!("allocation of {n} bytes"));
                }
                self.ensure(st, p)?;
                match st.mem.obj_mut(p) {
                    Some(o) if p & 0xffff_ffff == 0 => o.resize(n),
                    _ => return err("realloc of bad pointer"),
                }
                ok(p)
            }
            "posix_memalign" => {
                let d = n!(0);
                let n = n!(2) as usize;
                let p = st.mem.malloc(n);
                self.store(st, d, 8, &Val::I(p))?;
                ok(0)
            }
            "free" => {
                let p = n!(0);
                if p != 0 && !st.mem.free(p) {
                    return err(format!("free of bad pointer {p:#x}"));
                }
                ok(0)
            }
            "memcmp" | "bcmp" => {
                let n = n!(2) as usize;
                if n == 0 {
                    return ok(0);
                }
                let (p, q) = (n!(0), n!(1));
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                let mut acc = self.x.cst(32, 0);
                let exact = name == "memcmp";
                let mut ne = FALSE;
                for i in (0..n).rev() {
                    let (xa, xb) = (x[i], y[i]);
                    if xa.1 == 0 && xb.1 == 0 {
                        if xa.0 != xb.0 {
                            let v = if xa.0 < xb.0 { 0xffff_ffff } else { 1 };
                            acc = self.x.cst(32, v);
                            ne = TRUE;
                        }
                        continue;
                    }
                    let ea = if xa.1 != 0 { xa.1 } else { self.x.cst(8, xa.0 as u128) };
                    let eb = if xb.1 != 0 { xb.1 } else { self.x.cst(8, xb.0 as u128) };
                    if exact {
                        let lt = self.x.cmp(Pred::Ult, ea, eb);
                        let gt = self.x.cmp(Pred::Ult, eb, ea);
                        let (m1, o) = (self.x.cst(32, 0xffff_ffff), self.x.cst(32, 1));
                        let t = self.x.ite(gt, o, acc);
                        acc = self.x.ite(lt, m1, t);
                    } else {
                        let q = self.x.eq(ea, eb);
                        let d = self.x.not(q);
                        ne = self.x.or(ne, d);
                    }
                }
                if !exact {
                    acc = self.x.zext(32, ne);
                }
                Ok(Some(self.fin(st, acc)?))
            }
            "memcpy" | "memmove" => {
                let n = n!(2) as usize;
                let (d, s) = (n!(0), n!(1));
                self.copy(st, d, s, n)?;
                ok(d)
            }
            "memset" => {
                let n = n!(2) as usize;
                let d = n!(0);
                let b = n!(1) as u8;
                self.write_bytes(st, d, &vec![(b, 0); n])?;
                ok(d)
            }
            "strlen" => {
                let p = n!(0);
                let s = self.cstr(st, p)?;
                ok(s.len() as u64)
            }
            "memchr" | "memrchr" => {
                let (p, ch, n) = (n!(0), n!(1) as u8, n!(2));
                let mut r = 0;
                for k in 0..n {
                    let i = if name == "memchr" { k } else { n - 1 - k };
                    let v = self.load(st, p + i, 1, 8)?;
                    let b = self.vconc(st, &v)?;
                    if b as u8 == ch {
                        r = p + i;
                        break;
                    }
                }
                ok(r)
            }
            // ------------------------------------------------ process
            "abort" => Err(Stop::Abort),
            "exit" | "_exit" => {
                let c = n!(0) as u32 as i32;
                if name == "exit" {
                    if let Some((f, arg)) = st.extm().on_exit.pop() {
                        let Some(fi) = self.p.fn_at(f) else { return err("on_exit callback") };
                        // the callback returns into this same call instruction: make `exit` re-execute
                        st.extm().exit_code = Some(c);
                        self.enter(st, fi, vec![Val::I(c as u32 as u64), Val::I(arg)])?;
                        return Ok(None);
                    }
                }
                if st.ext.exit_code.is_some() {
                    return Err(Stop::Done);
                }
                Err(Stop::Exit(c))
            }
            "on_exit" => {
                let (f, x) = (n!(0), n!(1));
                st.extm().on_exit.push((f, x));
                ok(0)
            }
            "__errno_location" => ok(st.ext.errno),
            "getenv" => {
                let p = n!(0);
                let s = self.cstr(st, p)?;
                ok(st.ext.env.get(&s).copied().unwrap_or(0))
            }
            "getrandom" => {
                let p = n!(0);
                let n = n!(1) as usize;
                let b: Vec<(u8, E)> = (0..n).map(|i| ((i as u8).wrapping_mul(37) ^ 0x5a, 0)).collect();
                self.write_bytes(st, p, &b)?;
                ok(n as u64)
            }
            "syscall" => {
                let nr = n!(0);
                match nr {
                    318 => {
                        // getrandom
                        let p = n!(1);
                        let n = n!(2) as usize;
                        self.write_bytes(st, p, &vec![(0x5a, 0); n])?;
                        ok(n as u64)
                    }
                    202 => ok(0),  // futex wake
                    186 => ok(1), // gettid
                    // statx: not available, std falls back to stat64 and fstat64
                    332 => {
                        self.errno(st, 38)?;
                        ok(u64::MAX)
                    }
                    _ => err(format!("syscall {nr}")),
                }
            }
            "signal" => ok(0),
            "setrlimit" | "setrlimit64" => {
                let (r, p) = (n!(0), n!(1));
                if r != 1 {
                    return err("setrlimit");
                }
                let v = self.load(st, p, 8, 64)?;
                let v = self.vconc(st, &v)?;
                st.extm().fsize = Some(v);
                ok(0)
            }
            "sysconf" => ok(4096),
            "getpid" | "gettid" => ok(1),
            "pthread_self" => ok(1),
            "__cxa_thread_atexit_impl" => ok(0),
            "pthread_key_create" => {
                let p = n!(0);
                st.extm().keys.push(0);
                let k = st.ext.keys.len() as u64;
                self.store(st, p, 4, &Val::I(k))?;
                ok(0)
            }
            "pthread_setspecific" => {
                let (k, v) = (n!(0) as usize, n!(1));
                st.extm().keys[k - 1] = v;
                ok(0)
            }
            "pthread_getspecific" => {
                let k = n!(0) as usize;
                ok(st.ext.keys[k - 1])
            }
            "pthread_key_delete" => ok(0),
            "sched_yield" => ok(0),
            "clock_gettime" => {
                let p = n!(1);
                self.store(st, p, 8, &Val::I(1_700_000_000))?;
                self.store(st, p + 8, 8, &Val::I(0))?;
                ok(0)
            }
            "__xpg_strerror_r" => {
                let e = n!(0);
                let p = n!(1);
                let s: &[u8] = match e {
                    2 => b"No such file or directory\0",
                    9 => b"Bad file descriptor\0",
                    13 => b"Permission denied\0",
                    17 => b"File exists\0",
                    20 => b"Not a directory\0",
                    21 => b"Is a directory\0",
                    22 => b"Invalid argument\0",
                    27 => b"File too large\0",
                    28 => b"No space left on device\0",
                    _ => b"Unknown error\0",
                };
                let b: Vec<(u8, E)> = s.iter().map(|c| (*c, 0)).collect();
                self.write_bytes(st, p, &b)?;
                ok(0)
            }
            "isatty" => {
                self.errno(st, 25)?;
                ok(0)
            }
            "ioctl" => self.fail32(st, 25),
            // ------------------------------------------------ files
            "open64" | "open" => {
                let p = n!(0);
                let path = self.cstr(st, p)?;
                let flags = n!(1);
                let np = st.ext.norm(&path);
                let acc = flags & 3;
                let (rd, wr) = (acc == 0 || acc == 2, acc == 1 || acc == 2);
                let kind = if np == "/dev/full" {
                    FdKind::Full
                } else if np == "/dev/null" {
                    FdKind::Null
                } else if st.ext.dirs.contains(&np) {
                    if wr {
                        return self.fail32(st, EISDIR);
                    }
                    FdKind::Dir(np)
                } else {
                    // a path component that is a file
                    let mut q = np.clone();
                    let mut parent_ok = true;
                    if let Some(i) = q.rfind('/') {
                        q.truncate(i);
                        if !q.is_empty() && !st.ext.dirs.contains(&q) {
                            parent_ok = false;
                            let e = if st.ext.files.contains_key(&q) { ENOTDIR } else { ENOENT };
                            self.errno(st, e)?;
                        }
                    }
                    if !parent_ok {
                        return ok(0xffff_ffff);
                    }
                    if path.ends_with('/') && st.ext.files.contains_key(&np) {
                        return self.fail32(st, ENOTDIR);
                    }
                    if !st.ext.files.contains_key(&np) {
                        if flags & 0o100 == 0 {
                            return self.fail32(st, ENOENT);
                        }
                        st.extm().files.insert(np.clone(), Rc::new(Obj::default()));
                    } else if flags & 0o300 == 0o300 {
                        return self.fail32(st, EEXIST);
                    } else if flags & 0o1000 != 0 {
                        st.extm().files.insert(np.clone(), Rc::new(Obj::default()));
                    }
                    FdKind::File(np)
                };
                let fd = Fd { kind, off: 0, append: flags & 0o2000 != 0, rd, wr };
                let x = st.extm();
                let slot = x.fds.iter().position(|f| f.is_none());
                let i = match slot {
                    Some(i) => {
                        x.fds[i] = Some(fd);
                        i
                    }
                    None => {
                        x.fds.push(Some(fd));
                        x.fds.len() - 1
                    }
                };
                ok(i as u64)
            }
            "close" => {
                let fd = n!(0) as u32 as usize;
                if fd < st.ext.fds.len() && st.ext.fds[fd].is_some() {
                    st.extm().fds[fd] = None;
                    ok(0)
                } else {
                    self.fail32(st, EBADF)
                }
            }
            "dup2" => {
                let (o, n) = (n!(0) as usize, n!(1) as usize);
                let x = st.extm();
                while x.fds.len() <= n {
                    x.fds.push(None);
                }
                x.fds[n] = x.fds[o].clone();
                ok(n as u64)
            }
            "fcntl" => ok(0),
            "read" | "pread64" => {
                let fd = n!(0) as u32 as usize;
                let p = n!(1);
                let n = n!(2) as usize;
                let Some(Some(f)) = st.ext.fds.get(fd).cloned() else {
                    return self.fail64(st, EBADF);
                };
                match &f.kind {
                    FdKind::Dir(_) => self.fail64(st, EISDIR),
                    FdKind::File(path) => {
                        if !f.rd {
                            return self.fail64(st, EBADF);
                        }
                        let o = st.ext.files.get(path).cloned().unwrap_or_default();
                        let b = f.off.min(o.data.len());
                        let e = (b + n).min(o.data.len());
                        let bytes: Vec<(u8, E)> = (b..e).map(|i| o.get(i)).collect();
                        self.write_bytes(st, p, &bytes)?;
                        st.extm().fds[fd].as_mut().unwrap().off = e;
                        ok((e - b) as u64)
                    }
                    FdKind::Full => {
                        self.write_bytes(st, p, &vec![(0, 0); n])?;
                        ok(n as u64)
                    }
                    _ => ok(0),
                }
            }
            "write" => {
                let fd = n!(0) as u32 as usize;
                let p = n!(1);
                let n = n!(2) as usize;
                let b = self.read_bytes(st, p, n)?;
                self.fd_write(st, fd, &b)
            }
            "writev" => {
                let fd = n!(0) as u32 as usize;
                let p = n!(1);
                let k = n!(2);
                let mut b = vec![];
                for i in 0..k {
                    let q = self.load(st, p + i * 16, 8, 64)?;
                    let l = self.load(st, p + i * 16 + 8, 8, 64)?;
                    let (q, l) = (self.vconc(st, &q)?, self.vconc(st, &l)?);
                    b.extend(self.read_bytes(st, q, l as usize)?);
                }
                self.fd_write(st, fd, &b)
            }
            "lseek64" | "lseek" => {
                let fd = n!(0) as u32 as usize;
                let off = n!(1) as i64;
                let wh = n!(2);
                let Some(Some(f)) = st.ext.fds.get(fd).cloned() else {
                    return self.fail64(st, EBADF);
                };
                let len = match &f.kind {
                    FdKind::File(p) => st.ext.files.get(p).map(|o| o.data.len()).unwrap_or(0),
                    FdKind::Stdin | FdKind::Stdout | FdKind::Stderr => return self.fail64(st, 29),
                    _ => 0,
                };
                let n = match wh {
                    0 => off,
                    1 => f.off as i64 + off,
                    _ => len as i64 + off,
                };
                if n < 0 {
                    return self.fail64(st, EINVAL);
                }
                st.extm().fds[fd].as_mut().unwrap().off = n as usize;
                ok(n as u64)
            }
            "stat64" | "lstat64" => {
                let p = n!(0);
                let path = self.cstr(st, p)?;
                let buf = n!(1);
                let np = st.ext.norm(&path);
                let (mode, size) = if st.ext.dirs.contains(&np) || np == "/" {
                    (0o40755, 4096)
                } else if let Some(o) = st.ext.files.get(&np) {
                    if path.ends_with('/') {
                        return self.fail32(st, ENOTDIR);
                    }
                    (0o100644, o.data.len())
                } else if np == "/dev/full" || np == "/dev/null" {
                    (0o20666, 0)
                } else {
                    let mut e = ENOENT;
                    if let Some(i) = np.rfind('/') {
                        if st.ext.files.contains_key(&np[..i]) {
                            e = ENOTDIR;
                        }
                    }
                    return self.fail32(st, e);
                };
                self.fill_stat(st, buf, mode, size as u64)?;
                ok(0)
            }
            "fstat64" => {
                let fd = n!(0) as u32 as usize;
                let buf = n!(1);
                let Some(Some(f)) = st.ext.fds.get(fd).cloned() else {
                    return self.fail32(st, EBADF);
                };
                let (mode, size) = match &f.kind {
                    FdKind::File(p) => {
                        (0o100644, st.ext.files.get(p).map(|o| o.data.len()).unwrap_or(0))
                    }
                    FdKind::Dir(_) => (0o40755, 4096),
                    _ => (0o20666, 0),
                };
                self.fill_stat(st, buf, mode, size as u64)?;
                ok(0)
            }
            "mkdir" => {
                let p = n!(0);
                let path = self.cstr(st, p)?;
                let np = st.ext.norm(&path);
                if st.ext.dirs.contains(&np) || st.ext.files.contains_key(&np) {
                    return self.fail32(st, EEXIST);
                }
                let par = np.rfind('/').map(|i| np[..i].to_string()).unwrap_or_default();
                if !par.is_empty() && !st.ext.dirs.contains(&par) {
                    return self.fail32(st, ENOENT);
                }
                st.extm().dirs.insert(np);
                ok(0)
            }
            "unlink" => {
                let p = n!(0);
                let path = self.cstr(st, p)?;
                let np = st.ext.norm(&path);
                if st.extm().files.remove(&np).is_none() {
                    return self.fail32(st, ENOENT);
                }
                ok(0)
            }
            "getcwd" => {
                let p = n!(0);
                let n = n!(1) as usize;
                let mut s: Vec<(u8, E)> = st.ext.cwd.bytes().map(|b| (b, 0)).collect();
                s.push((0, 0));
                if s.len() > n {
                    self.errno(st, ERANGE)?;
                    return ok(0);
                }
                self.write_bytes(st, p, &s)?;
                ok(p)
            }
            "opendir" => {
                let p = n!(0);
                let path = self.cstr(st, p)?;
                let np = st.ext.norm(&path);
                if !st.ext.dirs.contains(&np) {
                    let e = if st.ext.files.contains_key(&np) { ENOTDIR } else { ENOENT };
                    self.errno(st, e)?;
                    return ok(0);
                }
                let pre = format!("{}/", np.trim_end_matches('/'));
                let mut names = vec![(".".to_string(), true), ("..".to_string(), true)];
                for (f, d) in st
                    .ext
                    .files
                    .keys()
                    .map(|f| (f, false))
                    .chain(st.ext.dirs.iter().map(|f| (f, true)))
                {
                    if let Some(r) = f.strip_prefix(&pre) {
                        if !r.is_empty() && !r.contains('/') {
                            names.push((r.to_string(), d));
                        }
                    }
                }
                let h = st.mem.malloc(16);
                let buf = st.mem.malloc(280);
                st.extm().dirstreams.insert(h, DirStream { names, pos: 0, buf });
                ok(h)
            }
            "readdir64" | "readdir" => {
                let h = n!(0);
                let Some(d) = st.ext.dirstreams.get(&h).cloned() else { return err("readdir") };
                if d.pos >= d.names.len() {
                    return ok(0);
                }
                let (nm, isdir) = d.names[d.pos].clone();
                let b = d.buf;
                self.store(st, b, 8, &Val::I(d.pos as u64 + 1))?;
                self.store(st, b + 8, 8, &Val::I(0))?;
                self.store(st, b + 16, 2, &Val::I(280))?;
                self.store(st, b + 18, 1, &Val::I(if isdir { 4 } else { 8 }))?;
                let mut s: Vec<(u8, E)> = nm.bytes().map(|b| (b, 0)).collect();
                s.push((0, 0));
                self.write_bytes(st, b + 19, &s)?;
                st.extm().dirstreams.get_mut(&h).unwrap().pos += 1;
                ok(b)
            }
            "closedir" => {
                let h = n!(0);
                if let Some(d) = st.extm().dirstreams.remove(&h) {
                    st.mem.free(d.buf);
                    st.mem.free(h);
                }
                ok(0)
            }
            "dirfd" => ok(99),
            "realpath" => {
                let p = n!(0);
                let path = self.cstr(st, p)?;
                let np = st.ext.norm(&path);
                if !st.ext.dirs.contains(&np) && !st.ext.files.contains_key(&np) {
                    self.errno(st, ENOENT)?;
                    return ok(0);
                }
                let h = st.mem.malloc(np.len() + 1);
                let mut s: Vec<(u8, E)> = np.bytes().map(|b| (b, 0)).collect();
                s.push((0, 0));
                self.write_bytes(st, h, &s)?;
                ok(h)
            }
            "llvm.fabs.f64" => ok(n!(0) & (u64::MAX >> 1)),
            "llvm.fabs.f32" => ok(n!(0) & 0x7fff_ffff),
            "fsync" | "fdatasync" | "chmod" | "fchmod" | "flock" | "posix_fadvise" => ok(0),
            "access" | "faccessat" => {
                let p = n!(if name == "access" { 0 } else { 1 });
                let path = self.cstr(st, p)?;
                let np = st.ext.norm(&path);
                if st.ext.dirs.contains(&np) || st.ext.files.contains_key(&np) {
                    ok(0)
                } else {
                    self.fail32(st, ENOENT)
                }
            }
            "ftruncate64" | "ftruncate" => {
                let fd = n!(0) as u32 as usize;
                let len = n!(1) as usize;
                let Some(Some(Fd { kind: FdKind::File(p), .. })) = st.ext.fds.get(fd).cloned() else {
                    return self.fail32(st, EBADF);
                };
                if let Some(o) = st.extm().files.get_mut(&p) {
                    Rc::make_mut(o).resize(len);
                }
                ok(0)
            }
            "rename" => {
                let (p, q) = (n!(0), n!(1));
                let (a, b) = (self.cstr(st, p)?, self.cstr(st, q)?);
                let (a, b) = (st.ext.norm(&a), st.ext.norm(&b));
                let par = b.rfind('/').map(|i| b[..i].to_string()).unwrap_or_default();
                if st.ext.dirs.contains(&b) {
                    return self.fail32(st, EISDIR);
                }
                if !par.is_empty() && !st.ext.dirs.contains(&par) {
                    return self.fail32(st, ENOENT);
                }
                match st.extm().files.remove(&a) {
                    Some(o) => {
                        st.extm().files.insert(b, o);
                        ok(0)
                    }
                    None => self.fail32(st, ENOENT),
                }
            }
            "readlink" => self.fail64(st, EINVAL),
            n => err(format!("unmodelled external function {n}")),
        }
    }
    fn fill_stat(&mut self, st: &mut State, buf: u64, mode: u64, size: u64) -> Res<()> {
        self.write_bytes(st, buf, &vec![(0, 0); 144])?;
        self.store(st, buf + 8, 8, &Val::I(1))?;
        self.store(st, buf + 16, 8, &Val::I(1))?;
        self.store(st, buf + 24, 4, &Val::I(mode))?;
        self.store(st, buf + 48, 8, &Val::I(size))?;
        self.store(st, buf + 56, 8, &Val::I(4096))
    }
    fn fd_write(&mut self, st: &mut State, fd: usize, b: &[(u8, E)]) -> Res<Option<Val>> {
        let Some(Some(f)) = st.ext.fds.get(fd).cloned() else {
            return self.fail64(st, EBADF);
        };
        match &f.kind {
            FdKind::Stdout => {
                let o = Rc::make_mut(&mut st.extm().stdout);
                for (x, e) in b {
                    o.push(*x, *e)
                }
            }
            FdKind::Stderr => {
                let o = Rc::make_mut(&mut st.extm().stderr);
                for (x, e) in b {
                    o.push(*x, *e)
                }
            }
            FdKind::Null => {}
            FdKind::Full => {
                if b.is_empty() {
                    return Ok(Some(Val::I(0)));
                }
                return self.fail64(st, ENOSPC);
            }
            FdKind::File(p) => {
                if !f.wr {
                    return self.fail64(st, EBADF);
                }
                let p = p.clone();
                let mut b = b;
                if let Some(l) = st.ext.fsize {
                    let len = st.ext.files.get(&p).map(|o| o.data.len()).unwrap_or(0);
                    let off = if f.append { len } else { f.off };
                    let room = (l as usize).saturating_sub(off);
                    if room == 0 && !b.is_empty() {
                        return self.fail64(st, 27);
                    }
                    b = &b[..b.len().min(room)];
                }
                let n = b.len() as u64;
                let x = st.extm();
                let fo = x.files.entry(p).or_default();
                let o = Rc::make_mut(fo);
                let mut off = if f.append { o.data.len() } else { f.off };
                for (c, e) in b {
                    if off < o.data.len() {
                        o.set(off, *c, *e);
                    } else {
                        while o.data.len() < off {
                            o.push(0, 0);
                        }
                        o.push(*c, *e);
                    }
                    off += 1;
                }
                x.fds[fd].as_mut().unwrap().off = off;
                return Ok(Some(Val::I(n)));
            }
            _ => return self.fail64(st, EBADF),
        }
        Ok(Some(Val::I(b.len() as u64)))
    }
}

/// one floating point operation on bit patterns
pub fn float(k: &str, fw: u16, tw: u16, x: u64, y: u64) -> Option<u64> {
    let get = |v: u64| if fw == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
    let put = |v: f64, w: u16| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    let sx = || (x as i64) << (64 - fw) >> (64 - fw);
    let m = if tw >= 64 { u64::MAX } else { (1 << tw) - 1 };
    match k {
        "uitofp" => return Some(if tw == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() }),
        "sitofp" => return Some(if tw == 32 { (sx() as f32).to_bits() as u64 } else { (sx() as f64).to_bits() }),
        _ => {}
    }
    let (a, b) = (get(x), get(y));
    // single precision results are rounded from the exact double computation, which is
    // correctly rounded for these operations
    Some(match k {
        "fadd" => put(a + b, tw),
        "fsub" => put(a - b, tw),
        "fmul" => put(a * b, tw),
        "fdiv" => put(a / b, tw),
        "frem" => put(a % b, tw),
        "fneg" => x ^ 1 << (fw - 1),
        "fpext" | "fptrunc" => put(a, tw),
        "fptoui" => a as u64 & m,
        "fptosi" => a as i64 as u64 & m,
        "oeq" => (a == b) as u64,
        "ogt" => (a > b) as u64,
        "oge" => (a >= b) as u64,
        "olt" => (a < b) as u64,
        "ole" => (a <= b) as u64,
        "one" => (a < b || a > b) as u64,
        "ord" => (!a.is_nan() && !b.is_nan()) as u64,
        "uno" => (a.is_nan() || b.is_nan()) as u64,
        "ueq" => !(a < b || a > b) as u64,
        "ugt" => !(a <= b) as u64,
        "uge" => !(a < b) as u64,
        "ult" => !(a >= b) as u64,
        "ule" => !(a > b) as u64,
        "une" => (a != b) as u64,
        "true" => 1,
        "false" => 0,
        _ => return None,
    })
}
