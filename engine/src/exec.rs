//! The symbolic executor.
use crate::expr::*;
use crate::ext::{Ext, ExtState};
use crate::ir::*;
use crate::mem::*;
use crate::solver::Solver;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub sp: usize,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub dom: Rc<Vec<[u64; 4]>>,
    pub multi: Rc<Vec<E>>,
    pub mvars: VarSet,
    pub fixed: VarSet,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub known: Rc<FxMap<E, u64>>,
    pub ext: Rc<ExtState>,
    pub obs: Rc<Obj>,
    pub reach: Rc<Vec<u32>>,
    pub forks: u32,
    pub checks: u32,
    pub symchecks: u32,
    pub steps: u64,
    pub prefix: bool,
}

#[derive(Debug)]
pub enum Stop {
    Split(E),
    SplitVar(u32),
    Done,
    Exit(i32),
    Abort,
    Assume,
    /// assertion failed on this path for sure
    Fail(String),
    Err(String),
}
pub type Res<T> = Result<T, Stop>;
pub fn err<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Err(s.into()))
}

#[derive(Clone, Copy, Debug)]
pub enum SV {
    I(u64),
    S(E),
}

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub model: Vec<u8>,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: u64,
    pub symchecks: u64,
    pub leaf_queries: u64,
    pub max_vars: u32,
    pub max_forks: u32,
    pub prefix_steps: u64,
}

pub struct Sample {
    pub model: Vec<u8>,
    pub obs: u64,
    pub nobs: u64,
}

pub struct Eng {
    pub p: Prog,
    pub x: Ctx,
    pub s: Solver,
    pub exts: Vec<Ext>,
    pub work: Vec<State>,
    pub st: Stats,
    pub labels: Vec<String>,
    pub labmap: FxMap<String, u32>,
    pub reached: BTreeMap<String, u64>,
    pub checked: BTreeMap<String, u64>,
    pub viols: BTreeMap<String, Violation>,
    pub nviol: u64,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub rng: u64,
    pub params: BTreeMap<String, u64>,
    pub big: u32,
    pub max_steps: u64,
    /// labels of listed findings, which do not end the run
    pub known: std::collections::BTreeSet<String>,
    pub stop: bool,
    pub maxvals: usize,
    pub trace: bool,
    pub profile: FxMap<(u32, u32), u64>,
    pub fn_steps: FxMap<Rc<str>, u64>,
    pub fork_at: BTreeMap<String, u64>,
    pub deadline: Option<Instant>,
    pub par: Option<crate::par::Par>,
    pub covered: FxMap<Rc<str>, ()>,
}

fn op_of(b: BinOp) -> Op {
    match b {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}
#[inline(always)]
fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
#[inline(always)]
fn s64(v: u64, w: u16) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

impl State {
    #[inline(always)]
    fn set(&mut self, d: u32, v: Val) {
        if d != NODST {
            self.top.regs[d as usize] = v;
        }
    }
    pub fn extm(&mut self) -> &mut ExtState {
        Rc::make_mut(&mut self.ext)
    }
}

impl Eng {
    // ---------------------------------------------------------------- operands
    #[inline(always)]
    fn raw<'a>(&'a self, st: &'a State, o: Opd) -> Val {
        match o {
            Opd::R(r) => st.top.regs[r as usize].clone(),
            Opd::I(v) => Val::I(v),
            Opd::K(k) => self.p.consts[k as usize].clone(),
        }
    }
    /// replace what the path already determines
    pub fn resolve(&mut self, st: &State, e: E) -> SV {
        let s = self.x.sup(e);
        let mut rest = 0;
        for k in 0..VW {
            rest |= s[k] & !st.fixed[k];
        }
        if rest == 0 && self.x.w(e) <= 64 {
            return SV::I(self.x.eval(e, &st.model) as u64);
        }
        if !st.known.is_empty() {
            if let Some(v) = st.known.get(&e) {
                return SV::I(*v);
            }
        }
        SV::S(e)
    }
    #[inline(always)]
    fn sv(&mut self, st: &State, o: Opd) -> Res<SV> {
        match o {
            Opd::I(v) => Ok(SV::I(v)),
            Opd::R(r) => match &st.top.regs[r as usize] {
                Val::I(v) => Ok(SV::I(*v)),
                Val::S(e) => {
                    let e = *e;
                    Ok(self.resolve(st, e))
                }
                v => err(format!("scalar expected, got {v:?}")),
            },
            Opd::K(k) => match &self.p.consts[k as usize] {
                Val::I(v) => Ok(SV::I(*v)),
                Val::S(e) => Ok(SV::S(*e)),
                v => err(format!("scalar constant expected, got {v:?}")),
            },
        }
    }
    pub fn vsv(&mut self, st: &State, v: &Val) -> Res<SV> {
        match v {
            Val::I(v) => Ok(SV::I(*v)),
            Val::S(e) => Ok(self.resolve(st, *e)),
            v => err(format!("scalar value expected, got {v:?}")),
        }
    }
    pub fn e(&mut self, v: SV, w: u16) -> E {
        match v {
            SV::I(v) => self.x.cst(w, v as u128),
            SV::S(e) => e,
        }
    }
    pub fn ve(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::I(v) => self.x.cst(w, *v as u128),
            Val::W(v) => self.x.cst(w, **v),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn conc(&mut self, st: &State, v: SV) -> Res<u64> {
        match v {
            SV::I(v) => Ok(v),
            SV::S(e) => {
                if let SV::I(v) = self.resolve(st, e) {
                    return Ok(v);
                }
                Err(Stop::Split(e))
            }
        }
    }
    pub fn vconc(&mut self, st: &State, v: &Val) -> Res<u64> {
        let s = self.vsv(st, v)?;
        self.conc(st, s)
    }
    /// make a register value from an expression
    pub fn fin(&mut self, st: &State, mut e: E) -> Res<Val> {
        let w = self.x.w(e);
        if let Some(c) = self.x.is_const(e) {
            return Ok(if w > 64 { Val::W(Rc::new(c)) } else { Val::I(c as u64) });
        }
        let sz = self.x.size(e);
        if sz > 8 {
            if w <= 64 && (sz > 20 || w == 1) {
                if let Some(v) = self.x.single_var(e) {
                    e = self.x.collapse(e, v);
                    if let Some(c) = self.x.is_const(e) {
                        return Ok(Val::I(c as u64));
                    }
                    return Ok(Val::S(e));
                }
            }
            if sz > self.big {
                let mut memo = FxMap::default();
                e = self.x.subst(e, &st.fixed, &st.model, &mut memo);
                if let Some(c) = self.x.is_const(e) {
                    return Ok(if w > 64 { Val::W(Rc::new(c)) } else { Val::I(c as u64) });
                }
                if self.x.size(e) > self.big {
                    if let Some(v) = self.x.single_var(e) {
                        if w <= 64 {
                            e = self.x.collapse(e, v);
                            return Ok(Val::S(e));
                        }
                    }
                    let s = *self.x.sup(e);
                    for k in 0..VW {
                        let r = s[k] & !st.fixed[k];
                        if r != 0 {
                            return Err(Stop::SplitVar(k as u32 * 64 + r.trailing_zeros()));
                        }
                    }
                }
            }
        }
        Ok(Val::S(e))
    }

    // ---------------------------------------------------------------- constraints
    fn dom_expr(&mut self, v: u32, d: &[u64; 4]) -> E {
        let mut t = [0u64; 256];
        for i in 0..256 {
            t[i] = d[i / 64] >> (i % 64) & 1;
        }
        let x = self.x.var(v);
        self.x.table(1, &t, x)
    }
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut vars = *self.x.sup(c);
        let mut out = vec![c];
        let mut inter = 0;
        for k in 0..VW {
            inter |= vars[k] & st.mvars[k];
        }
        if inter != 0 {
            let mut left: Vec<E> = st.multi.to_vec();
            loop {
                let mut changed = false;
                left.retain(|&m| {
                    let s = self.x.sup(m);
                    if (0..VW).any(|k| s[k] & vars[k] != 0) {
                        for k in 0..VW {
                            vars[k] |= s[k];
                        }
                        out.push(m);
                        changed = true;
                        false
                    } else {
                        true
                    }
                });
                if !changed {
                    break;
                }
            }
        }
        for k in 0..VW {
            let mut b = vars[k];
            while b != 0 {
                let v = k as u32 * 64 + b.trailing_zeros();
                b &= b - 1;
                let d = st.dom[v as usize];
                if d != [u64::MAX; 4] {
                    let de = self.dom_expr(v, &d);
                    if de != TRUE {
                        out.push(de);
                    }
                }
            }
        }
        out
    }
    /// is `c` possible together with the path condition? returns a full model
    pub fn feas(&mut self, st: &State, c: E) -> Res<Option<Rc<Vec<u8>>>> {
        match self.x.is_const(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        let mut memo = FxMap::default();
        let c = self.x.subst(c, &st.fixed, &st.model, &mut memo);
        match self.x.is_const(c) {
            Some(0) => return Ok(None),
            Some(_) => return Ok(Some(st.model.clone())),
            None => {}
        }
        let cs = self.slice(st, c);
        if cs.iter().any(|e| *e == FALSE) {
            return Ok(None);
        }
        match self.s.check(&self.x, cs) {
            Err(e) => err(e),
            Ok(None) => Ok(None),
            Ok(Some(m)) => {
                let mut n = (*st.model).clone();
                for (v, b) in m.iter() {
                    n[*v as usize] = *b;
                }
                Ok(Some(Rc::new(n)))
            }
        }
    }
    /// add a constraint that `model` satisfies
    pub fn add(&mut self, st: &mut State, c: E, model: Rc<Vec<u8>>) {
        debug_assert!(self.x.eval(c, &model) != 0);
        st.model = model;
        self.add_piece(st, c);
    }
    fn add_piece(&mut self, st: &mut State, c: E) {
        let mut memo = FxMap::default();
        let c = self.x.subst(c, &st.fixed, &st.model, &mut memo);
        if c == TRUE {
            return;
        }
        assert!(c != FALSE, "contradicting constraint");
        if let Node::Bin(Op::And, a, b) = self.x.node(c) {
            self.add_piece(st, a);
            self.add_piece(st, b);
            return;
        }
        if let Some(v) = self.x.single_var(c) {
            let m = self.x.truth_mask(c, v);
            let d = Rc::make_mut(&mut st.dom);
            let mut n = 0;
            for k in 0..4 {
                d[v as usize][k] &= m[k];
                n += d[v as usize][k].count_ones();
            }
            if n == 1 {
                st.fixed[v as usize / 64] |= 1 << (v % 64);
            }
            assert!(n > 0);
        } else {
            let s = *self.x.sup(c);
            for k in 0..VW {
                st.mvars[k] |= s[k];
            }
            Rc::make_mut(&mut st.multi).push(c);
        }
    }
    /// all feasible values of `e` with models
    fn values(&mut self, st: &State, e: E) -> Res<Vec<(u64, Rc<Vec<u8>>)>> {
        let w = self.x.w(e);
        let mut out: Vec<(u64, Rc<Vec<u8>>)> = vec![];
        let mut excl = TRUE;
        // the current model gives the first value for free
        let v0 = self.x.eval(e, &st.model) as u64;
        out.push((v0, st.model.clone()));
        let c = self.x.cst(w, v0 as u128);
        let q = self.x.eq(e, c);
        let n = self.x.not(q);
        excl = self.x.and(excl, n);
        if let Some(v) = self.x.single_var(e) {
            // candidate values from the variable's domain, each with a witness
            let in_multi = st.mvars[v as usize / 64] >> (v % 64) & 1 == 1;
            if !in_multi {
                let mut asg = (*st.model).clone();
                let d = st.dom[v as usize];
                for b in 0..256usize {
                    if d[b / 64] >> (b % 64) & 1 == 0 {
                        continue;
                    }
                    asg[v as usize] = b as u8;
                    let val = self.x.eval(e, &asg) as u64;
                    if !out.iter().any(|o| o.0 == val) {
                        out.push((val, Rc::new(asg.clone())));
                    }
                }
                // completeness: the solver confirms that no other value exists
                let mut ne = TRUE;
                for (val, _) in &out {
                    let c = self.x.cst(w, *val as u128);
                    let q = self.x.eq(e, c);
                    let n = self.x.not(q);
                    ne = self.x.and(ne, n);
                }
                if self.feas(st, ne)?.is_some() {
                    return err("incomplete value enumeration");
                }
                return Ok(out);
            }
        }
        loop {
            match self.feas(st, excl)? {
                None => return Ok(out),
                Some(m) => {
                    let v = self.x.eval(e, &m) as u64;
                    out.push((v, m));
                    if out.len() > self.maxvals {
                        return err(format!(
                            "too many values for {} at {}",
                            self.x.show(e, 5),
                            self.site(st)
                        ));
                    }
                    let c = self.x.cst(w, v as u128);
                    let q = self.x.eq(e, c);
                    let n = self.x.not(q);
                    let (n1, ex) = (n, excl);
                    excl = self.x.and(ex, n1);
                }
            }
        }
    }
    pub fn site(&self, st: &State) -> String {
        let mut s = format!("{}:{}:{}", st.top.func.name, st.top.blk, st.top.ip);
        for f in st.stack.iter().rev().take(6) {
            s.push_str(" < ");
            s.push_str(&f.func.name);
        }
        s
    }
    fn note_fork(&mut self, st: &State, n: u64) {
        self.st.forks += n;
        if self.trace {
            let mut s = format!("{}:{}", st.top.func.name, st.top.blk);
            for f in st.stack.iter().rev().take(3) {
                s.push_str(" < ");
                s.push_str(&f.func.name);
            }
            *self.fork_at.entry(s).or_default() += n;
        }
    }

    // ---------------------------------------------------------------- memory
    pub fn ensure(&mut self, st: &mut State, a: u64) -> Res<()> {
        if st.mem.obj(a).is_none() {
            if let Some(g) = Mem::is_glob(a) {
                if (g as usize) < self.p.globs.len() {
                    let gi = self.p.global(g).map_err(Stop::Err)?;
                    st.mem.put_glob(
                        g as usize,
                        Obj { data: gi.data.clone(), sym: None, ro: gi.constant },
                    );
                    return Ok(());
                }
            }
            return err(format!("invalid address {a:#x} at {}", self.site(st)));
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, a: u64, bytes: usize, w: u16) -> Res<Val> {
        let off = (a & 0xffff_ffff) as usize;
        let o = match st.mem.obj(a) {
            Some(o) => o,
            None => {
                self.ensure(st, a)?;
                st.mem.obj(a).unwrap()
            }
        };
        if off + bytes > o.data.len() {
            return err(format!(
                "out of bounds load {a:#x}+{bytes} size {} at {}",
                o.data.len(),
                self.site(st)
            ));
        }
        if let Some(s) = &o.sym {
            if s[off..off + bytes].iter().any(|e| *e != 0) {
                let es: Vec<(u8, E)> = (off..off + bytes).map(|i| (o.data[i], s[i])).collect();
                let mut acc = 0;
                for (i, (b, e)) in es.iter().enumerate() {
                    let e = if *e != 0 { *e } else { self.x.cst(8, *b as u128) };
                    acc = if i == 0 { e } else { self.x.concat(e, acc) };
                }
                if w < bytes as u16 * 8 {
                    acc = self.x.extract(0, w, acc);
                }
                return self.fin(st, acc);
            }
        }
        let d = &o.data[off..off + bytes];
        if bytes <= 8 {
            let mut v = 0u64;
            match bytes {
                1 => v = d[0] as u64,
                8 => v = u64::from_le_bytes(d.try_into().unwrap()),
                4 => v = u32::from_le_bytes(d.try_into().unwrap()) as u64,
                _ => {
                    for (i, b) in d.iter().enumerate() {
                        v |= (*b as u64) << (8 * i)
                    }
                }
            }
            Ok(Val::I(v & m64(w)))
        } else {
            let mut v = 0u128;
            for (i, b) in d.iter().enumerate() {
                v |= (*b as u128) << (8 * i)
            }
            Ok(Val::W(Rc::new(v & mask(w))))
        }
    }
    /// load through a symbolic address
    fn load_sym(&mut self, st: &mut State, e: E, bytes: usize, w: u16) -> Res<Val> {
        let Some(v) = self.x.single_var(e) else {
            return Err(Stop::Split(e));
        };
        let mut asg = (*st.model).clone();
        let d = st.dom[v as usize];
        let mut t = [0u64; 256];
        let mut first = None;
        let mut seen: FxMap<u64, u64> = FxMap::default();
        for b in 0..256usize {
            if d[b / 64] >> (b % 64) & 1 == 0 {
                continue;
            }
            asg[v as usize] = b as u8;
            let a = self.x.eval(e, &asg) as u64;
            let val = match seen.get(&a) {
                Some(x) => *x,
                None => {
                    let off = (a & 0xffff_ffff) as usize;
                    let ok = (st.mem.obj(a).is_some() || self.ensure(st, a).is_ok())
                        && off + bytes <= st.mem.obj(a).unwrap().data.len();
                    if !ok {
                        // must be infeasible for this value
                        return Err(Stop::Split(e));
                    }
                    match self.load(st, a, bytes, w)? {
                        Val::I(x) => {
                            seen.insert(a, x);
                            x
                        }
                        _ => return Err(Stop::Split(e)),
                    }
                }
            };
            t[b] = val;
            first.get_or_insert(val);
        }
        // values outside the domain cannot occur on this path
        let f = first.unwrap_or(0);
        for b in 0..256usize {
            if d[b / 64] >> (b % 64) & 1 == 0 {
                t[b] = f;
            }
        }
        let x = self.x.var(v);
        let r = self.x.table(w, &t, x);
        self.fin(st, r)
    }
    pub fn store(&mut self, st: &mut State, a: u64, bytes: usize, v: &Val) -> Res<()> {
        let off = (a & 0xffff_ffff) as usize;
        if st.mem.obj(a).is_none() {
            self.ensure(st, a)?;
        }
        let len = st.mem.obj(a).unwrap().data.len();
        if off + bytes > len {
            return err(format!(
                "out of bounds store {a:#x}+{bytes} size {len} at {}",
                self.site(st)
            ));
        }
        let mut es: [E; 16] = [0; 16];
        if let Val::S(e) = v {
            let w = self.x.w(*e);
            let full = bytes as u16 * 8;
            let e = if w < full { self.x.zext(full, *e) } else { *e };
            for i in 0..bytes {
                let mut b = self.x.extract(i as u16 * 8, 8, e);
                if self.x.size(b) > 20 {
                    if let Some(vr) = self.x.single_var(b) {
                        b = self.x.collapse(b, vr);
                    }
                }
                es[i] = b;
            }
        }
        let o = st.mem.obj_mut(a).unwrap();
        if o.ro {
            return err("store to constant");
        }
        match v {
            Val::I(x) => {
                o.data[off..off + bytes].copy_from_slice(&x.to_le_bytes()[..bytes]);
                if let Some(s) = &mut o.sym {
                    s[off..off + bytes].fill(0)
                }
            }
            Val::W(x) => {
                o.data[off..off + bytes].copy_from_slice(&x.to_le_bytes()[..bytes]);
                if let Some(s) = &mut o.sym {
                    s[off..off + bytes].fill(0)
                }
            }
            Val::S(_) => {
                for i in 0..bytes {
                    match self.x.is_const(es[i]) {
                        Some(c) => o.set(off + i, c as u8, 0),
                        None => o.set(off + i, 0, es[i]),
                    }
                }
            }
            Val::A(_) => return err("aggregate store"),
        }
        Ok(())
    }
    fn load_ty(&mut self, st: &mut State, a: u64, t: TyId) -> Res<Val> {
        match self.p.tys[t as usize].clone() {
            Ty::Int(w) => self.load(st, a, (w as usize + 7) / 8, w),
            Ty::Ptr => self.load(st, a, 8, 64),
            Ty::Vec(n, e) => {
                let w = self.p.scalar_w(e).unwrap();
                if w % 8 != 0 {
                    return err("load of bit vector");
                }
                let b = w as usize / 8;
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n as usize {
                    v.push(self.load(st, a + (i * b) as u64, b, w)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let n = self.p.nfields(t);
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let (o, e) = self.p.field_off(t, i);
                    v.push(self.load_ty(st, a + o, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: TyId, v: &Val) -> Res<()> {
        match self.p.tys[t as usize].clone() {
            Ty::Int(w) => self.store(st, a, (w as usize + 7) / 8, v),
            Ty::Ptr => self.store(st, a, 8, v),
            Ty::Vec(n, e) => {
                let w = self.p.scalar_w(e).unwrap();
                if w % 8 != 0 {
                    return err("store of bit vector");
                }
                let b = w as usize / 8;
                let Val::A(l) = v else { return err("vector store") };
                for i in 0..n as usize {
                    self.store(st, a + (i * b) as u64, b, &l[i])?;
                }
                Ok(())
            }
            Ty::Arr(..) | Ty::Struct(..) => {
                let Val::A(l) = v else { return err("agg store") };
                for (i, x) in l.iter().enumerate() {
                    let (o, e) = self.p.field_off(t, i);
                    self.store_ty(st, a + o, e, x)?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: usize) -> Res<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        self.ensure(st, a)?;
        let o = st.mem.obj(a).unwrap();
        let off = (a & 0xffff_ffff) as usize;
        if off + n > o.data.len() {
            return err(format!("out of bounds read {a:#x}+{n} at {}", self.site(st)));
        }
        Ok((off..off + n).map(|i| o.get(i)).collect())
    }
    pub fn write_bytes(&mut self, st: &mut State, a: u64, b: &[(u8, E)]) -> Res<()> {
        if b.is_empty() {
            return Ok(());
        }
        self.ensure(st, a)?;
        let off = (a & 0xffff_ffff) as usize;
        let o = st.mem.obj_mut(a).unwrap();
        if off + b.len() > o.data.len() || o.ro {
            return err(format!("out of bounds write {a:#x}+{} at {}", b.len(), self.site(st)));
        }
        for (i, (x, e)) in b.iter().enumerate() {
            o.set(off + i, *x, *e);
        }
        Ok(())
    }
    pub fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> Res<()> {
        if n == 0 {
            return Ok(());
        }
        self.ensure(st, s)?;
        let so = st.mem.obj(s).unwrap().clone();
        let off = (s & 0xffff_ffff) as usize;
        if off + n > so.data.len() {
            return err(format!("out of bounds copy {s:#x}+{n} at {}", self.site(st)));
        }
        self.ensure(st, d)?;
        let doff = (d & 0xffff_ffff) as usize;
        let dlen = st.mem.obj(d).unwrap().data.len();
        if doff + n > dlen {
            return err(format!("out of bounds copy to {d:#x}+{n} at {}", self.site(st)));
        }
        if d >> 32 == s >> 32 {
            drop(so);
            let o = st.mem.obj_mut(d).unwrap();
            if o.ro {
                return err("copy to constant");
            }
            o.data.copy_within(off..off + n, doff);
            if let Some(y) = &mut o.sym {
                y.copy_within(off..off + n, doff);
            }
            return Ok(());
        }
        let o = st.mem.obj_mut(d).unwrap();
        if o.ro {
            return err("copy to constant");
        }
        o.data[doff..doff + n].copy_from_slice(&so.data[off..off + n]);
        match &so.sym {
            Some(y) if y[off..off + n].iter().any(|e| *e != 0) => {
                let l = o.data.len();
                let t = o.sym.get_or_insert_with(|| Box::new(vec![0; l]));
                t[doff..doff + n].copy_from_slice(&y[off..off + n]);
            }
            _ => {
                if let Some(t) = &mut o.sym {
                    t[doff..doff + n].fill(0)
                }
            }
        }
        Ok(())
    }
    /// concrete C string
    pub fn cstr(&mut self, st: &mut State, a: u64) -> Res<String> {
        let mut v = vec![];
        let mut i = 0;
        loop {
            let x = self.load(st, a + i, 1, 8)?;
            let b = self.vconc(st, &x)?;
            if b == 0 {
                break;
            }
            v.push(b as u8);
            i += 1;
        }
        Ok(String::from_utf8_lossy(&v).to_string())
    }

    // ---------------------------------------------------------------- scalar ops
    pub fn bin(&mut self, st: &State, op: BinOp, w: u16, a: SV, b: SV) -> Res<Val> {
        if let (SV::I(a), SV::I(b)) = (a, b) {
            if w <= 64 {
                let r = match op {
                    BinOp::Add => a.wrapping_add(b),
                    BinOp::Sub => a.wrapping_sub(b),
                    BinOp::Mul => a.wrapping_mul(b),
                    BinOp::And => a & b,
                    BinOp::Or => a | b,
                    BinOp::Xor => a ^ b,
                    BinOp::Shl => {
                        if b >= w as u64 {
                            0
                        } else {
                            a << b
                        }
                    }
                    BinOp::LShr => {
                        if b >= w as u64 {
                            0
                        } else {
                            a >> b
                        }
                    }
                    BinOp::AShr => {
                        if b >= w as u64 {
                            0
                        } else {
                            (s64(a, w) >> b) as u64
                        }
                    }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                        if b == 0 {
                            return err("division by zero (undefined behaviour)");
                        }
                        fold_bin(op_of(op), w, a as u128, b as u128) as u64
                    }
                };
                return Ok(Val::I(r & m64(w)));
            }
        }
        let ea = self.e(a, w);
        let eb = self.e(b, w);
        self.bin_e(st, op, ea, eb)
    }
    fn bin_e(&mut self, st: &State, op: BinOp, a: E, b: E) -> Res<Val> {
        if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem)
            && self.x.is_const(b).map_or(true, |c| c == 0)
        {
            let w = self.x.w(b);
            let z = self.x.cst(w, 0);
            let q = self.x.eq(b, z);
            if self.feas(st, q)?.is_some() {
                return err("possible division by zero (undefined behaviour)");
            }
        }
        let r = self.x.bin(op_of(op), a, b);
        self.fin(st, r)
    }
    pub fn icmp(&mut self, st: &State, p: IPred, w: u16, a: SV, b: SV) -> Res<Val> {
        if let (SV::I(a), SV::I(b)) = (a, b) {
            if w <= 64 {
                let r = match p {
                    IPred::Eq => a == b,
                    IPred::Ne => a != b,
                    IPred::Ugt => a > b,
                    IPred::Uge => a >= b,
                    IPred::Ult => a < b,
                    IPred::Ule => a <= b,
                    IPred::Sgt => s64(a, w) > s64(b, w),
                    IPred::Sge => s64(a, w) >= s64(b, w),
                    IPred::Slt => s64(a, w) < s64(b, w),
                    IPred::Sle => s64(a, w) <= s64(b, w),
                };
                return Ok(Val::I(r as u64));
            }
        }
        let ea = self.e(a, w);
        let eb = self.e(b, w);
        let r = self.icmp_e(p, ea, eb);
        self.fin(st, r)
    }
    pub fn icmp_e(&mut self, p: IPred, a: E, b: E) -> E {
        match p {
            IPred::Eq => self.x.eq(a, b),
            IPred::Ne => {
                let r = self.x.eq(a, b);
                self.x.not(r)
            }
            IPred::Ult => self.x.cmp(Pred::Ult, a, b),
            IPred::Ule => self.x.cmp(Pred::Ule, a, b),
            IPred::Ugt => self.x.cmp(Pred::Ult, b, a),
            IPred::Uge => self.x.cmp(Pred::Ule, b, a),
            IPred::Slt => self.x.cmp(Pred::Slt, a, b),
            IPred::Sle => self.x.cmp(Pred::Sle, a, b),
            IPred::Sgt => self.x.cmp(Pred::Slt, b, a),
            IPred::Sge => self.x.cmp(Pred::Sle, b, a),
        }
    }
    fn cast(&mut self, st: &State, k: Cast, fw: u16, tw: u16, v: Val) -> Res<Val> {
        if let Val::I(x) = v {
            if tw <= 64 {
                return Ok(Val::I(match k {
                    Cast::ZExt => x,
                    Cast::SExt => s64(x, fw) as u64 & m64(tw),
                    Cast::Trunc => x & m64(tw),
                }));
            }
        }
        let e = self.ve(&v, fw);
        let r = match k {
            Cast::ZExt => self.x.zext(tw, e),
            Cast::SExt => self.x.sext(tw, e),
            Cast::Trunc => self.x.extract(0, tw, e),
        };
        self.fin(st, r)
    }
    fn res_val(&mut self, st: &State, v: Val) -> Val {
        match v {
            Val::S(e) if self.x.w(e) <= 64 => match self.resolve(st, e) {
                SV::I(x) => Val::I(x),
                SV::S(e) => Val::S(e),
            },
            v => v,
        }
    }
    pub fn sv_val(v: SV) -> Val {
        match v {
            SV::I(x) => Val::I(x),
            SV::S(e) => Val::S(e),
        }
    }
    fn to_bits(&mut self, t: TyId, v: &Val) -> Res<E> {
        match self.p.tys[t as usize].clone() {
            Ty::Int(w) => Ok(self.ve(v, w)),
            Ty::Ptr => Ok(self.ve(v, 64)),
            Ty::Vec(_, e) => {
                let w = self.p.scalar_w(e).unwrap();
                let Val::A(l) = v else { return err("bitcast") };
                let mut acc = None;
                for x in l.iter() {
                    let b = self.ve(x, w);
                    acc = Some(match acc {
                        None => b,
                        Some(a) => {
                            if self.x.w(a) + w > 128 {
                                return err("bitcast wider than 128 bits");
                            }
                            self.x.concat(b, a)
                        }
                    });
                }
                Ok(acc.unwrap())
            }
            _ => err("bitcast type"),
        }
    }
    fn bitcast(&mut self, st: &State, from: TyId, to: TyId, v: Val) -> Res<Val> {
        if from == to {
            return Ok(v);
        }
        // vector to vector, element-wise when widths nest
        if let (Ty::Vec(n1, e1), Ty::Vec(n2, e2)) =
            (self.p.tys[from as usize].clone(), self.p.tys[to as usize].clone())
        {
            let (w1, w2) = (self.p.scalar_w(e1).unwrap(), self.p.scalar_w(e2).unwrap());
            let Val::A(l) = &v else { return err("bitcast") };
            let mut out = vec![];
            if w1 >= w2 {
                let k = w1 / w2;
                for x in l.iter() {
                    let e = self.ve(x, w1);
                    for i in 0..k {
                        let b = self.x.extract(i * w2, w2, e);
                        out.push(self.fin(st, b)?);
                    }
                }
            } else {
                let k = (w2 / w1) as usize;
                for i in 0..n2 as usize {
                    let mut acc = self.ve(&l[i * k], w1);
                    for j in 1..k {
                        let b = self.ve(&l[i * k + j], w1);
                        acc = self.x.concat(b, acc);
                    }
                    out.push(self.fin(st, acc)?);
                }
            }
            let _ = n1;
            return Ok(Val::A(Rc::new(out)));
        }
        let e = self.to_bits(from, &v)?;
        match self.p.tys[to as usize].clone() {
            Ty::Int(_) | Ty::Ptr => self.fin(st, e),
            Ty::Vec(n, t) => {
                let w = self.p.scalar_w(t).unwrap();
                let mut out = vec![];
                for i in 0..n as u16 {
                    let b = self.x.extract(i * w, w, e);
                    out.push(self.fin(st, b)?);
                }
                Ok(Val::A(Rc::new(out)))
            }
            _ => err("bitcast to"),
        }
    }
    fn select(&mut self, st: &State, c: SV, a: Val, b: Val, t: TyId) -> Res<Val> {
        match c {
            SV::I(0) => Ok(b),
            SV::I(_) => Ok(a),
            SV::S(e) => match self.p.tys[t as usize].clone() {
                Ty::Int(_) | Ty::Ptr => {
                    let w = self.p.scalar_w(t).unwrap();
                    let x = self.ve(&a, w);
                    let y = self.ve(&b, w);
                    let r = self.x.ite(e, x, y);
                    self.fin(st, r)
                }
                _ => {
                    let (Val::A(x), Val::A(y)) = (a, b) else { return err("select") };
                    let mut out = vec![];
                    for i in 0..x.len() {
                        let et = match &self.p.tys[t as usize] {
                            Ty::Struct(_, f) => f[i],
                            Ty::Arr(_, e) | Ty::Vec(_, e) => *e,
                            _ => return err("select type"),
                        };
                        out.push(self.select(st, c, x[i].clone(), y[i].clone(), et)?);
                    }
                    Ok(Val::A(Rc::new(out)))
                }
            },
        }
    }

    // ---------------------------------------------------------------- control
    fn take(&mut self, st: &mut State, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => {
                let v = self.raw(st, e.moves[0].1);
                st.top.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e.moves.iter().map(|m| self.raw(st, m.1)).collect();
                for (m, v) in e.moves.iter().zip(vs) {
                    st.top.regs[m.0 as usize] = v;
                }
            }
        }
        st.top.blk = e.to;
        st.top.ip = 0;
    }
    pub fn enter(&mut self, st: &mut State, f: u32, args: Vec<Val>) -> Res<()> {
        let func = self.p.body(f).map_err(Stop::Err)?;
        if st.stack.len() > 4000 {
            return err(format!("stack too deep at {}", self.site(st)));
        }
        let mut regs = args;
        if regs.len() != func.nargs as usize {
            return err(format!("arity of {}", func.name));
        }
        regs.resize(func.nregs as usize, Val::I(0));
        let fr = Frame { func, blk: 0, ip: 0, regs, sp: st.mem.sp };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        Ok(())
    }
    /// continue the caller after its call instruction
    pub fn finish_call(&mut self, st: &mut State, v: Val) -> Res<()> {
        let func = st.top.func.clone();
        match &func.blocks[st.top.blk as usize][st.top.ip as usize] {
            Ins::Call(c) => {
                st.set(c.dst, v);
                match &c.cont {
                    Some(e) => self.take(st, e),
                    None => st.top.ip += 1,
                }
                Ok(())
            }
            _ => err("return to non-call"),
        }
    }

    /// run one state until it ends; forks go to the work list
    pub fn run(&mut self, mut st: State) -> Result<(), String> {
        let mut retries = 0;
        loop {
            let start_steps = st.steps;
            let r = self.steps(&mut st);
            self.st.steps += st.steps - start_steps;
            match r {
                Ok(()) => unreachable!(),
                Err(Stop::Split(e)) => {
                    if st.steps == start_steps {
                        retries += 1;
                        if retries > 64 {
                            return Err(format!("no progress at {}", self.site(&st)));
                        }
                    } else {
                        retries = 0;
                    }
                    let vals = match self.values(&st, e) {
                        Ok(v) => v,
                        Err(Stop::Err(s)) => return Err(s),
                        Err(o) => return Err(format!("{o:?}")),
                    };
                    let w = self.x.w(e);
                    self.note_fork(&st, vals.len() as u64 - 1);
                    let n = vals.len();
                    for (i, (v, m)) in vals.into_iter().enumerate().rev() {
                        let c = self.x.cst(w, v as u128);
                        let q = self.x.eq(e, c);
                        if i == 0 {
                            st.forks += (n > 1) as u32;
                            self.add(&mut st, q, m);
                            Rc::make_mut(&mut st.known).insert(e, v);
                        } else {
                            let mut s2 = st.clone();
                            s2.forks += 1;
                            self.add(&mut s2, q, m);
                            Rc::make_mut(&mut s2.known).insert(e, v);
                            self.work.push(s2);
                        }
                    }
                    self.balance()?;
                }
                Err(Stop::SplitVar(v)) => {
                    let e = self.x.var(v);
                    let vals = match self.values(&st, e) {
                        Ok(v) => v,
                        Err(Stop::Err(s)) => return Err(s),
                        Err(o) => return Err(format!("{o:?}")),
                    };
                    self.note_fork(&st, vals.len() as u64 - 1);
                    for (i, (v, m)) in vals.into_iter().enumerate().rev() {
                        let c = self.x.cst(8, v as u128);
                        let q = self.x.eq(e, c);
                        if i == 0 {
                            self.add(&mut st, q, m);
                        } else {
                            let mut s2 = st.clone();
                            s2.forks += 1;
                            self.add(&mut s2, q, m);
                            self.work.push(s2);
                        }
                    }
                    self.balance()?;
                }
                Err(Stop::Assume) => {
                    self.st.pruned += 1;
                    return Ok(());
                }
                Err(Stop::Done) => return self.leaf(st, None),
                Err(Stop::Exit(c)) => return self.leaf(st, Some(format!("exit:{c}"))),
                Err(Stop::Abort) => {
                    let s = st.ext.stderr_text(&mut self.x, &st.model);
                    // label: source location and message of the panic
                    let lab = panic_label(&s);
                    return self.leaf(st, Some(lab));
                }
                Err(Stop::Fail(l)) => return self.leaf(st, Some(l)),
                Err(Stop::Err(e)) => return Err(format!("{e} [at {}]", self.site(&st))),
            }
        }
    }
    pub fn violation(&mut self, st: &State, label: String, model: &[u8]) {
        self.nviol += 1;
        if !self.known.contains(&label) {
            match &self.par {
                Some(p) => p.sh.stop.store(1, std::sync::atomic::Ordering::SeqCst),
                None => self.stop = true,
            }
        }
        let m = model[..st.nvars as usize].to_vec();
        if !self.viols.contains_key(&label) {
            let detail = st.ext.stderr_text(&mut self.x, model);
            self.viols.insert(label.clone(), Violation { label, model: m, detail });
        }
    }
    fn leaf(&mut self, st: State, bad: Option<String>) -> Result<(), String> {
        // the solver confirms the complete path condition
        let mut cs: Vec<E> = st.multi.to_vec();
        for v in 0..st.nvars {
            let d = st.dom[v as usize];
            if d != [u64::MAX; 4] {
                let e = self.dom_expr(v, &d);
                cs.push(e);
            }
        }
        if !cs.is_empty() {
            self.st.leaf_queries += 1;
            if self.s.check(&self.x, cs)?.is_none() {
                return Err("path condition of a completed path is unsatisfiable".into());
            }
        }
        self.st.paths += 1;
        self.st.checks += st.checks as u64;
        self.st.symchecks += st.symchecks as u64;
        self.st.max_vars = self.st.max_vars.max(st.nvars);
        self.st.max_forks = self.st.max_forks.max(st.forks);
        for r in st.reach.iter() {
            let l = self.labels[*r as usize].clone();
            *self.reached.entry(l).or_default() += 1;
        }
        if let Some(b) = bad {
            let m = st.model.clone();
            self.violation(&st, b, &m);
            return Ok(());
        }
        // reservoir sample for native replay
        let k = self.st.paths as usize;
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if self.samples.len() < self.max_samples {
            self.samples.push(Sample { model: vec![], obs: 0, nobs: 0 });
            Some(self.samples.len() - 1)
        } else if self.max_samples > 0 {
            let r = (self.rng % k as u64) as usize;
            (r < self.max_samples).then_some(r)
        } else {
            None
        };
        if let Some(i) = slot {
            let mut h = 0xcbf2_9ce4_8422_2325u64;
            let n = st.obs.data.len();
            for j in 0..n {
                let (b, e) = st.obs.get(j);
                let b = if e != 0 { self.x.eval(e, &st.model) as u8 } else { b };
                h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
            }
            self.samples[i] =
                Sample { model: st.model[..st.nvars as usize].to_vec(), obs: h, nobs: n as u64 };
        }
        Ok(())
    }

    fn branch(&mut self, st: &mut State, e: E, t: &Edge, f: &Edge) -> Res<()> {
        let b = self.x.eval(e, &st.model) != 0;
        let ne = self.x.not(e);
        let (here, there) = if b { (e, ne) } else { (ne, e) };
        match self.feas(st, there)? {
            None => {
                self.take(st, if b { t } else { f });
            }
            Some(m) => {
                self.note_fork(st, 1);
                st.forks += 1;
                let mut s2 = st.clone();
                self.add(&mut s2, there, m);
                self.take(&mut s2, if b { f } else { t });
                self.work.push(s2);
                let m = st.model.clone();
                self.add(st, here, m);
                self.take(st, if b { t } else { f });
                self.balance().map_err(Stop::Err)?;
            }
        }
        Ok(())
    }
    fn switch(&mut self, st: &mut State, w: u16, e: E, def: &Edge, cases: &[(u64, Edge)]) -> Res<()> {
        // group cases by successor
        let mut groups: Vec<(E, &Edge)> = vec![];
        let mut rest = TRUE;
        for (v, ed) in cases {
            let c = self.x.cst(w, *v as u128);
            let q = self.x.eq(e, c);
            let nq = self.x.not(q);
            rest = self.x.and(rest, nq);
            if q == FALSE {
                continue;
            }
            if ed.moves.is_empty() {
                if let Some(g) = groups.iter_mut().find(|g| g.1.to == ed.to) {
                    g.0 = self.x.or(g.0, q);
                    continue;
                }
            }
            groups.push((q, ed));
        }
        if def.moves.is_empty() {
            if let Some(g) = groups.iter_mut().find(|g| g.1.to == def.to) {
                g.0 = self.x.or(g.0, rest);
                rest = FALSE;
            }
        }
        if rest != FALSE {
            groups.push((rest, def));
        }
        let mut feas = vec![];
        for (c, ed) in groups {
            if let Some(m) = self.feas(st, c)? {
                feas.push((c, ed, m));
            }
        }
        if feas.is_empty() {
            return err("switch without feasible case");
        }
        self.note_fork(st, feas.len() as u64 - 1);
        if feas.len() > 1 {
            st.forks += 1;
        }
        let n = feas.len();
        for (i, (c, ed, m)) in feas.into_iter().enumerate() {
            if i == n - 1 {
                if n > 1 {
                    self.add(st, c, m);
                }
                self.take(st, ed);
            } else {
                let mut s2 = st.clone();
                self.add(&mut s2, c, m);
                self.take(&mut s2, ed);
                self.work.push(s2);
            }
        }
        self.balance().map_err(Stop::Err)
    }
    fn balance(&mut self) -> Result<(), String> {
        if self.par.is_some() && self.work.len() >= 1 {
            crate::par::try_split(self)?;
        }
        Ok(())
    }

    fn steps(&mut self, st: &mut State) -> Res<()> {
        loop {
            let func = st.top.func.clone();
            let depth = st.stack.len();
            if self.trace || st.nvars > 0 {
                if !self.covered.contains_key(&func.name) {
                    self.covered.insert(func.name.clone(), ());
                }
            }
            let s0 = st.steps;
            let r = self.in_func(st, &func, depth);
            if self.trace {
                *self.fn_steps.entry(func.name.clone()).or_default() += st.steps - s0;
            }
            r?;
        }
    }
    fn in_func(&mut self, st: &mut State, func: &Func, depth: usize) -> Res<()> {
        loop {
            if st.steps > self.max_steps {
                return Err(Stop::Fail("hang: no end of the run within the step limit".into()));
            }
            let block = &func.blocks[st.top.blk as usize];
            // straight-line part
            loop {
                let ins = &block[st.top.ip as usize];
                st.steps += 1;
                match ins {
                    Ins::Bin { op, w, a, b, dst } => {
                        let v = if *w <= 64 {
                            let x = self.sv(st, *a)?;
                            let y = self.sv(st, *b)?;
                            self.bin(st, *op, *w, x, y)?
                        } else {
                            let (x, y) = (self.raw(st, *a), self.raw(st, *b));
                            let (x, y) = (self.ve(&x, *w), self.ve(&y, *w));
                            self.bin_e(st, *op, x, y)?
                        };
                        st.set(*dst, v);
                    }
                    Ins::ICmp { p, w, a, b, dst } => {
                        let v = if *w <= 64 {
                            let x = self.sv(st, *a)?;
                            let y = self.sv(st, *b)?;
                            self.icmp(st, *p, *w, x, y)?
                        } else {
                            let (x, y) = (self.raw(st, *a), self.raw(st, *b));
                            let (x, y) = (self.ve(&x, *w), self.ve(&y, *w));
                            let r = self.icmp_e(*p, x, y);
                            self.fin(st, r)?
                        };
                        st.set(*dst, v);
                    }
                    Ins::Load { w, bytes, ptr, dst } => {
                        let v = match self.sv(st, *ptr)? {
                            SV::I(a) => self.load(st, a, *bytes as usize, *w)?,
                            SV::S(e) => self.load_sym(st, e, *bytes as usize, *w)?,
                        };
                        st.set(*dst, v);
                    }
                    Ins::LoadAgg { ty, ptr, dst } => {
                        let a = self.sv(st, *ptr)?;
                        let a = self.conc(st, a)?;
                        let v = self.load_ty(st, a, *ty)?;
                        st.set(*dst, v);
                    }
                    Ins::Store { w: _, bytes, val, ptr } => {
                        let a = self.sv(st, *ptr)?;
                        let a = self.conc(st, a)?;
                        let v = self.raw(st, *val);
                        let v = self.res_val(st, v);
                        self.store(st, a, *bytes as usize, &v)?;
                    }
                    Ins::StoreAgg { ty, val, ptr } => {
                        let a = self.sv(st, *ptr)?;
                        let a = self.conc(st, a)?;
                        let v = self.raw(st, *val);
                        self.store_ty(st, a, *ty, &v)?;
                    }
                    Ins::Gep { base, off, idx, dst } => {
                        let b = self.sv(st, *base)?;
                        let mut acc = match b {
                            SV::I(x) => SV::I(x.wrapping_add(*off as u64)),
                            SV::S(e) => {
                                let k = self.x.cst(64, *off as u64 as u128);
                                SV::S(self.x.bin(Op::Add, e, k))
                            }
                        };
                        for (o, scale, w) in idx.iter() {
                            let i = self.sv(st, *o)?;
                            match (acc, i) {
                                (SV::I(a), SV::I(i)) => {
                                    let i = s64(i, *w);
                                    acc = SV::I(a.wrapping_add(i.wrapping_mul(*scale) as u64));
                                }
                                (a, i) => {
                                    let e = self.e(i, *w);
                                    let e = if *w < 64 { self.x.sext(64, e) } else { e };
                                    let k = self.x.cst(64, *scale as u64 as u128);
                                    let m = self.x.bin(Op::Mul, e, k);
                                    let b = self.e(a, 64);
                                    acc = SV::S(self.x.bin(Op::Add, m, b));
                                }
                            }
                        }
                        let v = match acc {
                            SV::I(x) => Val::I(x),
                            SV::S(e) => self.fin(st, e)?,
                        };
                        st.set(*dst, v);
                    }
                    Ins::Alloca { size, n, dst } => {
                        let n = self.sv(st, *n)?;
                        let n = self.conc(st, n)?;
                        let a = st.mem.alloca((*size * n) as usize);
                        st.set(*dst, Val::I(a));
                    }
                    Ins::Cast { k, fw, tw, a, dst } => {
                        let v = self.raw(st, *a);
                        let v = self.res_val(st, v);
                        let v = self.cast(st, *k, *fw, *tw, v)?;
                        st.set(*dst, v);
                    }
                    Ins::VCast { k, fw, tw, a, dst } => {
                        let Val::A(l) = self.raw(st, *a) else { return err("vcast") };
                        let mut o = Vec::with_capacity(l.len());
                        for x in l.iter() {
                            o.push(self.cast(st, *k, *fw, *tw, x.clone())?);
                        }
                        st.set(*dst, Val::A(Rc::new(o)));
                    }
                    Ins::BitCast { from, to, a, dst } => {
                        let v = self.raw(st, *a);
                        let v = self.bitcast(st, *from, *to, v)?;
                        st.set(*dst, v);
                    }
                    Ins::Mov { a, dst } => {
                        let v = self.raw(st, *a);
                        st.set(*dst, v);
                    }
                    Ins::Select { c, a, b, ty, dst } => {
                        let c = self.sv(st, *c)?;
                        let x = self.raw(st, *a);
                        let y = self.raw(st, *b);
                        let v = self.select(st, c, x, y, *ty)?;
                        st.set(*dst, v);
                    }
                    Ins::VSelect { c, a, b, ty, dst } => {
                        let Val::A(c) = self.raw(st, *c) else { return err("vselect") };
                        let (Val::A(x), Val::A(y)) = (self.raw(st, *a), self.raw(st, *b)) else {
                            return err("vselect");
                        };
                        let et = match self.p.tys[*ty as usize] {
                            Ty::Vec(_, e) => e,
                            _ => return err("vselect ty"),
                        };
                        let mut o = vec![];
                        for i in 0..c.len() {
                            let k = self.vsv(st, &c[i])?;
                            o.push(self.select(st, k, x[i].clone(), y[i].clone(), et)?);
                        }
                        st.set(*dst, Val::A(Rc::new(o)));
                    }
                    Ins::VBin { op, w, a, b, dst } => {
                        let (Val::A(x), Val::A(y)) = (self.raw(st, *a), self.raw(st, *b)) else {
                            return err("vbin");
                        };
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            let p = self.vsv(st, &x[i])?;
                            let q = self.vsv(st, &y[i])?;
                            o.push(self.bin(st, *op, *w, p, q)?);
                        }
                        st.set(*dst, Val::A(Rc::new(o)));
                    }
                    Ins::VICmp { p, w, a, b, dst } => {
                        let (Val::A(x), Val::A(y)) = (self.raw(st, *a), self.raw(st, *b)) else {
                            return err("vicmp");
                        };
                        let mut o = Vec::with_capacity(x.len());
                        for i in 0..x.len() {
                            let k = self.vsv(st, &x[i])?;
                            let q = self.vsv(st, &y[i])?;
                            o.push(self.icmp(st, *p, *w, k, q)?);
                        }
                        st.set(*dst, Val::A(Rc::new(o)));
                    }
                    Ins::ExtractV { a, path, dst } => {
                        let mut v = self.raw(st, *a);
                        for i in path.iter() {
                            let Val::A(l) = &v else { return err("extractvalue") };
                            v = l[*i as usize].clone();
                        }
                        st.set(*dst, v);
                    }
                    Ins::InsertV { a, v, path, dst } => {
                        let mut agg = self.raw(st, *a);
                        let v = self.raw(st, *v);
                        {
                            let mut cur = &mut agg;
                            for i in path.iter() {
                                let Val::A(l) = cur else { return err("insertvalue") };
                                cur = &mut Rc::make_mut(l)[*i as usize];
                            }
                            *cur = v;
                        }
                        st.set(*dst, agg);
                    }
                    Ins::ExtractE { a, i, dst } => {
                        let v = self.raw(st, *a);
                        let k = self.sv(st, *i)?;
                        let k = self.conc(st, k)?;
                        let Val::A(l) = &v else { return err("extractelement") };
                        st.set(*dst, l[k as usize].clone());
                    }
                    Ins::InsertE { a, v, i, dst } => {
                        let agg = self.raw(st, *a);
                        let x = self.raw(st, *v);
                        let k = self.sv(st, *i)?;
                        let k = self.conc(st, k)?;
                        let Val::A(mut l) = agg else { return err("insertelement") };
                        Rc::make_mut(&mut l)[k as usize] = x;
                        st.set(*dst, Val::A(l));
                    }
                    Ins::Shuffle { a, b, m, n, dst, zero } => {
                        let (Val::A(x), Val::A(y)) = (self.raw(st, *a), self.raw(st, *b)) else {
                            return err("shuffle");
                        };
                        let z = self.raw(st, *zero);
                        let o: Vec<Val> = m
                            .iter()
                            .map(|k| {
                                let k = *k;
                                if k < 0 {
                                    z.clone()
                                } else if (k as u32) < *n {
                                    x[k as usize].clone()
                                } else {
                                    y[k as usize - *n as usize].clone()
                                }
                            })
                            .collect();
                        st.set(*dst, Val::A(Rc::new(o)));
                    }
                    Ins::Rmw { op, w, ptr, v, dst } => {
                        let a = self.sv(st, *ptr)?;
                        let a = self.conc(st, a)?;
                        let bytes = (*w as usize + 7) / 8;
                        let old = self.load(st, a, bytes, *w)?;
                        let x = self.vsv(st, &old)?;
                        let y = self.sv(st, *v)?;
                        let new = match op {
                            Rmw::Xchg => Self::sv_val(y),
                            Rmw::Add => self.bin(st, BinOp::Add, *w, x, y)?,
                            Rmw::Sub => self.bin(st, BinOp::Sub, *w, x, y)?,
                            Rmw::And => self.bin(st, BinOp::And, *w, x, y)?,
                            Rmw::Or => self.bin(st, BinOp::Or, *w, x, y)?,
                            Rmw::Xor => self.bin(st, BinOp::Xor, *w, x, y)?,
                            _ => {
                                let (x, y) = (self.conc(st, x)?, self.conc(st, y)?);
                                Val::I(match op {
                                    Rmw::UMax => x.max(y),
                                    Rmw::UMin => x.min(y),
                                    Rmw::Max => s64(x, *w).max(s64(y, *w)) as u64 & m64(*w),
                                    Rmw::Min => s64(x, *w).min(s64(y, *w)) as u64 & m64(*w),
                                    _ => !(x & y) & m64(*w),
                                })
                            }
                        };
                        self.store(st, a, bytes, &new)?;
                        st.set(*dst, old);
                    }
                    Ins::CmpXchg { w, ptr, c, n, dst } => {
                        let a = self.sv(st, *ptr)?;
                        let a = self.conc(st, a)?;
                        let bytes = (*w as usize + 7) / 8;
                        let old = self.load(st, a, bytes, *w)?;
                        let x = self.vconc(st, &old)?;
                        let y = self.sv(st, *c)?;
                        let y = self.conc(st, y)?;
                        let ok = x == y;
                        if ok {
                            let n = self.raw(st, *n);
                            self.store(st, a, bytes, &n)?;
                        }
                        st.set(*dst, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
                    }
                    Ins::Nop => {}
                    Ins::Fp { k, fw, tw, a, b, dst } => {
                        let (x, y) = (self.sv(st, *a)?, self.sv(st, *b)?);
                        let (x, y) = (self.conc(st, x)?, self.conc(st, y)?);
                        let Some(r) = crate::ext::float(k, *fw, *tw, x, y) else {
                            return err(format!("floating point {k} {fw} {tw}"));
                        };
                        st.set(*dst, Val::I(r));
                    }
                    Ins::Br(e) => {
                        self.take(st, e);
                        break;
                    }
                    Ins::CondBr { c, t, f } => {
                        match self.sv(st, *c)? {
                            SV::I(0) => self.take(st, f),
                            SV::I(_) => self.take(st, t),
                            SV::S(e) => self.branch(st, e, t, f)?,
                        }
                        break;
                    }
                    Ins::Switch { w, v, def, cases } => {
                        match self.sv(st, *v)? {
                            SV::I(x) => {
                                let e = cases.iter().find(|c| c.0 == x).map(|c| &c.1).unwrap_or(def);
                                self.take(st, e);
                            }
                            SV::S(e) => self.switch(st, *w, e, def, cases)?,
                        }
                        break;
                    }
                    Ins::Ret(v) => {
                        let v = match v {
                            Some(o) => self.raw(st, *o),
                            None => Val::I(0),
                        };
                        st.mem.pop_to(st.top.sp);
                        match st.stack.pop() {
                            None => return Err(Stop::Done),
                            Some(f) => {
                                st.top = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                                self.finish_call(st, v)?;
                            }
                        }
                        return Ok(());
                    }
                    Ins::Unreachable => {
                        if st.ext.exit_code.is_some() {
                            return Err(Stop::Done); // after an exit callback
                        }
                        return err("unreachable executed");
                    }
                    Ins::Bad(s) => return err(format!("unsupported instruction: {s}")),
                    Ins::Call(c) => {
                        let f = match c.callee {
                            Callee::F(f) => f,
                            Callee::Ind(o) => {
                                let a = self.sv(st, o)?;
                                let a = self.conc(st, a)?;
                                match self.p.fn_at(a) {
                                    Some(f) => f,
                                    None => return err(format!("call of address {a:#x}")),
                                }
                            }
                            Callee::AsmNop => {
                                st.top.ip += 1;
                                continue;
                            }
                            Callee::AsmCpuid => {
                                st.set(c.dst, Val::A(Rc::new(vec![Val::I(0); 4])));
                                st.top.ip += 1;
                                continue;
                            }
                        };
                        let args: Vec<Val> = c
                            .args
                            .iter()
                            .map(|o| {
                                let v = self.raw(st, *o);
                                self.res_val(st, v)
                            })
                            .collect();
                        if self.p.fns[f as usize].defined && !matches!(self.exts[f as usize], Ext::Override(_)) {
                            self.enter(st, f, args)?;
                            return Ok(());
                        }
                        match self.external(st, f, &args, c)? {
                            Some(v) => self.finish_call(st, v)?,
                            None => {}
                        }
                        if st.stack.len() != depth {
                            return Ok(()); // external pushed a frame
                        }
                        if c.cont.is_some() {
                            break;
                        }
                        continue;
                    }
                }
                st.top.ip += 1;
            }
        }
    }
}

/// stable label for a panic message: location (file name and line) and text
pub fn panic_label(s: &str) -> String {
    let mut loc = String::new();
    let mut msg = String::new();
    let mut it = s.lines();
    while let Some(l) = it.next() {
        if let Some(p) = l.find("panicked at ") {
            loc = l[p + 12..].trim_end_matches(':').to_string();
            msg = it.next().unwrap_or("").to_string();
        }
    }
    format!("panic: {loc}: {msg}")
}
