//! Textual LLVM IR front end: symbol table, lazily parsed function bodies and globals.
use crate::expr::{mask, FxMap, E};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// integer of at most 64 bits, or a pointer
    I(u64),
    /// symbolic integer of any width
    S(E),
    /// concrete integer wider than 64 bits
    W(Rc<u128>),
    /// aggregate or vector
    A(Rc<Vec<Val>>),
}

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Vec(u32, TyId),
    Arr(u64, TyId),
    Struct(bool, Vec<TyId>),
    Other,
}

#[derive(Clone, Copy, Debug)]
pub enum Opd {
    R(u32),
    I(u64),
    K(u32),
}

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub to: u32,
    pub moves: Box<[(u32, Opd)]>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IPred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
}

#[derive(Clone, Copy, Debug)]
pub enum Callee {
    /// function table index
    F(u32),
    Ind(Opd),
    AsmNop,
    AsmCpuid,
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Box<[Opd]>,
    /// types of args
    pub tys: Box<[TyId]>,
    pub ret: TyId,
    pub dst: u32,
    /// invoke: normal successor
    pub cont: Option<Edge>,
}

pub const NODST: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: BinOp, w: u16, a: Opd, b: Opd, dst: u32 },
    ICmp { p: IPred, w: u16, a: Opd, b: Opd, dst: u32 },
    VBin { op: BinOp, w: u16, a: Opd, b: Opd, dst: u32 },
    VICmp { p: IPred, w: u16, a: Opd, b: Opd, dst: u32 },
    /// scalar load: width in bits, bytes in memory
    Load { w: u16, bytes: u16, ptr: Opd, dst: u32 },
    LoadAgg { ty: TyId, ptr: Opd, dst: u32 },
    Store { w: u16, bytes: u16, val: Opd, ptr: Opd },
    StoreAgg { ty: TyId, val: Opd, ptr: Opd },
    Gep { base: Opd, off: i64, idx: Box<[(Opd, i64, u16)]>, dst: u32 },
    Alloca { size: u64, n: Opd, dst: u32 },
    Cast { k: Cast, fw: u16, tw: u16, a: Opd, dst: u32 },
    VCast { k: Cast, fw: u16, tw: u16, a: Opd, dst: u32 },
    BitCast { from: TyId, to: TyId, a: Opd, dst: u32 },
    Mov { a: Opd, dst: u32 },
    Select { c: Opd, a: Opd, b: Opd, ty: TyId, dst: u32 },
    VSelect { c: Opd, a: Opd, b: Opd, ty: TyId, dst: u32 },
    ExtractV { a: Opd, path: Box<[u32]>, dst: u32 },
    InsertV { a: Opd, v: Opd, path: Box<[u32]>, dst: u32 },
    ExtractE { a: Opd, i: Opd, dst: u32 },
    InsertE { a: Opd, v: Opd, i: Opd, dst: u32 },
    Shuffle { a: Opd, b: Opd, m: Box<[i32]>, n: u32, dst: u32, zero: Opd },
    Rmw { op: Rmw, w: u16, ptr: Opd, v: Opd, dst: u32 },
    CmpXchg { w: u16, ptr: Opd, c: Opd, n: Opd, dst: u32 },
    Call(Box<CallI>),
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { w: u16, v: Opd, def: Edge, cases: Box<[(u64, Edge)]> },
    Ret(Option<Opd>),
    Unreachable,
    /// floating point on concrete values (symbolic operands are split); the predicate is in `k`
    Fp { k: Rc<str>, fw: u16, tw: u16, a: Opd, b: Opd, dst: u32 },
    Bad(Rc<str>),
    Nop,
}

pub struct Func {
    pub name: Rc<str>,
    pub nargs: u32,
    pub nregs: u32,
    pub blocks: Vec<Vec<Ins>>,
}

#[derive(Clone, Debug)]
pub struct Sym {
    pub name: Rc<str>,
    pub range: (usize, usize),
    pub is_fn: bool,
    pub defined: bool,
    pub weak: bool,
    pub constant: bool,
}

pub struct Prog {
    pub text: Vec<u8>,
    pub tys: Vec<Ty>,
    tymap: FxMap<Ty, TyId>,
    pub lay: Vec<(u64, u64)>, // size, align
    pub fns: Vec<Sym>,
    pub globs: Vec<Sym>,
    fmap: FxMap<Vec<u8>, u32>,
    gmap: FxMap<Vec<u8>, u32>,
    pub bodies: Vec<Option<Rc<Func>>>,
    pub ginit: Vec<Option<Rc<GlobInit>>>,
    pub consts: Vec<Val>,
    /// weak functions we provide (by name)
    pub weak_ok: fn(&str) -> bool,
    pub parsed_instrs: u64,
}
pub struct GlobInit {
    pub data: Vec<u8>,
    pub constant: bool,
}

pub const FN_BASE: u64 = 0x1000_0000;
pub const GLOB_HI: u64 = 0x1_0000;

type R<T> = Result<T, String>;

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    end: usize,
}
impl<'a> P<'a> {
    fn new(s: &'a [u8], i: usize, end: usize) -> Self {
        P { s, i, end }
    }
    fn ws(&mut self) {
        while self.i < self.end {
            match self.s[self.i] {
                b' ' | b'\n' | b'\t' => self.i += 1,
                b';' => {
                    while self.i < self.end && self.s[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn sp(&mut self) {
        while self.i < self.end && self.s[self.i] == b' ' {
            self.i += 1
        }
    }
    fn peek(&self) -> u8 {
        if self.i < self.end {
            self.s[self.i]
        } else {
            0
        }
    }
    fn at(&self, k: usize) -> u8 {
        if self.i + k < self.end {
            self.s[self.i + k]
        } else {
            0
        }
    }
    fn looking(&self, w: &str) -> bool {
        self.s[self.i..self.end].starts_with(w.as_bytes())
    }
    fn eat(&mut self, w: &str) -> bool {
        self.sp();
        if self.looking(w) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    /// eat a whole word
    fn word_is(&mut self, w: &str) -> bool {
        self.sp();
        if self.looking(w) {
            let c = self.at(w.len());
            if !(c.is_ascii_alphanumeric() || c == b'_' || c == b'.') {
                self.i += w.len();
                return true;
            }
        }
        false
    }
    fn need(&mut self, w: &str) -> R<()> {
        if self.eat(w) {
            Ok(())
        } else {
            Err(format!("expected {w:?} at {:?}", self.ctx()))
        }
    }
    fn ctx(&self) -> String {
        let e = (self.i + 80).min(self.end);
        let b = self.i.saturating_sub(60);
        format!(
            "{}<<>>{}",
            String::from_utf8_lossy(&self.s[b..self.i]),
            String::from_utf8_lossy(&self.s[self.i..e])
        )
    }
    fn word(&mut self) -> &'a [u8] {
        self.sp();
        let b = self.i;
        while self.i < self.end {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' {
                self.i += 1
            } else {
                break;
            }
        }
        &self.s[b..self.i]
    }
    fn num(&mut self) -> R<u64> {
        self.sp();
        let b = self.i;
        let mut v = 0u64;
        while self.peek().is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.peek() - b'0') as u64);
            self.i += 1;
        }
        if b == self.i {
            return Err(format!("number expected at {}", self.ctx()));
        }
        Ok(v)
    }
    /// name after % or @ (quoted or plain)
    fn name(&mut self) -> Vec<u8> {
        if self.peek() == b'"' {
            self.i += 1;
            let b = self.i;
            while self.peek() != b'"' {
                self.i += 1
            }
            let r = self.s[b..self.i].to_vec();
            self.i += 1;
            r
        } else {
            let b = self.i;
            while self.i < self.end {
                let c = self.s[self.i];
                if c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') {
                    self.i += 1
                } else {
                    break;
                }
            }
            self.s[b..self.i].to_vec()
        }
    }
    fn balanced(&mut self) {
        // at '(' or '[' or '{': skip to the matching close
        let mut d = 0;
        while self.i < self.end {
            match self.s[self.i] {
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.i < self.end && self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn line(&mut self) {
        while self.i < self.end && self.s[self.i] != b'\n' {
            if self.s[self.i] == b'"' {
                self.i += 1;
                while self.i < self.end && self.s[self.i] != b'"' {
                    self.i += 1
                }
            }
            self.i += 1
        }
    }
}

fn hexv(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        _ => c - b'A' + 10,
    }
}

struct FnCx {
    regs: FxMap<Vec<u8>, u32>,
    n: u32,
    labels: FxMap<Vec<u8>, u32>,
}
impl FnCx {
    fn reg(&mut self, n: Vec<u8>) -> u32 {
        let k = self.n;
        let e = self.regs.entry(n).or_insert(k);
        if *e == k {
            self.n += 1;
        }
        *e
    }
    fn label(&mut self, n: &[u8]) -> R<u32> {
        self.labels
            .get(n)
            .copied()
            .ok_or_else(|| format!("unknown label {}", String::from_utf8_lossy(n)))
    }
}

impl Prog {
    pub fn load(text: Vec<u8>, weak_ok: fn(&str) -> bool) -> R<Prog> {
        let mut p = Prog {
            text: vec![],
            tys: vec![],
            tymap: FxMap::default(),
            lay: vec![],
            fns: vec![],
            globs: vec![],
            fmap: FxMap::default(),
            gmap: FxMap::default(),
            bodies: vec![],
            ginit: vec![],
            consts: vec![],
            weak_ok,
            parsed_instrs: 0,
        };
        let n = text.len();
        let mut i = 0;
        while i < n {
            let le = text[i..].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(n);
            match text[i] {
                b'@' => {
                    let mut q = P::new(&text, i + 1, le);
                    let name = q.name();
                    q.need("=")?;
                    let body = q.i;
                    let rest = &text[body..le.min(body + 200)];
                    let rs = String::from_utf8_lossy(rest);
                    let pre = rs.split(['@', '[', '{', '<', '"']).next().unwrap_or("");
                    let words: Vec<&str> = pre.split(' ').collect();
                    let ext = words.contains(&"external") || words.contains(&"extern_weak");
                    let id = p.globs.len() as u32;
                    p.globs.push(Sym {
                        name: String::from_utf8_lossy(&name).as_ref().into(),
                        range: (body, le),
                        is_fn: false,
                        defined: !ext,
                        weak: words.contains(&"extern_weak"),
                        constant: words.contains(&"constant"),
                    });
                    p.gmap.insert(name, id);
                    i = le + 1;
                }
                b'd' if text[i..].starts_with(b"define ") || text[i..].starts_with(b"declare ") => {
                    let def = text[i..].starts_with(b"define ");
                    let at = text[i..le]
                        .iter()
                        .position(|&c| c == b'@')
                        .ok_or("function without name")?;
                    let mut q = P::new(&text, i + at + 1, le);
                    let name = q.name();
                    let weak = text[i..i + at].windows(11).any(|w| w == b"extern_weak");
                    let end;
                    if def {
                        // to line that is exactly "}"
                        let mut j = le + 1;
                        loop {
                            if j >= n {
                                return Err("unterminated function".into());
                            }
                            let e =
                                text[j..].iter().position(|&c| c == b'\n').map(|k| j + k).unwrap_or(n);
                            if text[j] == b'}' {
                                end = e;
                                break;
                            }
                            j = e + 1;
                        }
                    } else {
                        end = le;
                    }
                    let id = p.fns.len() as u32;
                    p.fns.push(Sym {
                        name: String::from_utf8_lossy(&name).as_ref().into(),
                        range: (i, end),
                        is_fn: true,
                        defined: def,
                        weak,
                        constant: true,
                    });
                    p.fmap.insert(name, id);
                    i = end + 1;
                }
                _ => i = le + 1,
            }
        }
        p.text = text;
        p.bodies = (0..p.fns.len()).map(|_| None).collect();
        p.ginit = (0..p.globs.len()).map(|_| None).collect();
        Ok(p)
    }

    pub fn func_named(&self, n: &str) -> Option<u32> {
        self.fmap.get(n.as_bytes()).copied()
    }
    pub fn fn_addr(i: u32) -> u64 {
        FN_BASE + i as u64 * 16
    }
    pub fn fn_at(&self, a: u64) -> Option<u32> {
        if a < FN_BASE || (a - FN_BASE) % 16 != 0 {
            return None;
        }
        let i = (a - FN_BASE) / 16;
        if (i as usize) < self.fns.len() {
            Some(i as u32)
        } else {
            None
        }
    }
    pub fn glob_addr(i: u32) -> u64 {
        (GLOB_HI + i as u64) << 32
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let l = match &t {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                ((b + a - 1) / a * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Vec(n, e) => {
                let ew = match &self.tys[*e as usize] {
                    Ty::Int(w) => *w as u64,
                    Ty::Ptr => 64,
                    _ => 64,
                };
                let b = (*n as u64 * ew + 7) / 8;
                let a = b.next_power_of_two();
                ((b + a - 1) / a * a, a)
            }
            Ty::Arr(n, e) => {
                let (s, a) = self.lay[*e as usize];
                (s * n, a)
            }
            Ty::Struct(packed, f) => {
                let mut o = 0;
                let mut al = 1;
                for e in f {
                    let (s, a) = self.lay[*e as usize];
                    if !packed {
                        o = (o + a - 1) / a * a;
                        al = al.max(a);
                    }
                    o += s;
                }
                ((o + al - 1) / al * al, al)
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.lay.push(l);
        self.tymap.insert(t, id);
        id
    }
    pub fn size(&self, t: TyId) -> u64 {
        self.lay[t as usize].0
    }
    pub fn field_off(&self, t: TyId, k: usize) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Struct(packed, f) => {
                let mut o = 0;
                for (i, e) in f.iter().enumerate() {
                    let (s, a) = self.lay[*e as usize];
                    if !packed {
                        o = (o + a - 1) / a * a;
                    }
                    if i == k {
                        return (o, *e);
                    }
                    o += s;
                }
                panic!("field")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.lay[*e as usize].0 * k as u64, *e),
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn nfields(&self, t: TyId) -> usize {
        match &self.tys[t as usize] {
            Ty::Struct(_, f) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn scalar_w(&self, t: TyId) -> Option<u16> {
        match self.tys[t as usize] {
            Ty::Int(w) => Some(w),
            Ty::Ptr => Some(64),
            _ => None,
        }
    }
    pub fn elem_w(&self, t: TyId) -> Option<u16> {
        match self.tys[t as usize] {
            Ty::Vec(_, e) => self.scalar_w(e),
            _ => None,
        }
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.tys[t as usize] {
            Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
            Ty::Int(_) | Ty::Ptr | Ty::Void | Ty::Other => Val::I(0),
            Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Arr(n, e) => Val::A(Rc::new((0..*n).map(|_| self.zero(*e)).collect())),
            Ty::Struct(_, f) => Val::A(Rc::new(f.iter().map(|e| self.zero(*e)).collect())),
        }
    }

    fn parse_ty(&mut self, p: &mut P) -> R<TyId> {
        p.sp();
        match p.peek() {
            b'i' if p.at(1).is_ascii_digit() => {
                p.i += 1;
                let w = p.num()? as u16;
                Ok(self.ty(Ty::Int(w)))
            }
            b'p' if p.looking("ptr") => {
                p.i += 3;
                p.sp();
                if p.looking("addrspace") {
                    p.i += 9;
                    p.balanced();
                }
                Ok(self.ty(Ty::Ptr))
            }
            b'v' if p.looking("void") => {
                p.i += 4;
                Ok(self.ty(Ty::Void))
            }
            b'[' => {
                p.i += 1;
                let n = p.num()?;
                p.need("x ")?;
                let e = self.parse_ty(p)?;
                p.need("]")?;
                Ok(self.ty(Ty::Arr(n, e)))
            }
            b'<' if p.at(1) == b'{' => {
                p.i += 2;
                let f = self.ty_list(p, b'}')?;
                p.need(">")?;
                Ok(self.ty(Ty::Struct(true, f)))
            }
            b'<' => {
                p.i += 1;
                let n = p.num()?;
                p.need("x ")?;
                let e = self.parse_ty(p)?;
                p.need(">")?;
                Ok(self.ty(Ty::Vec(n as u32, e)))
            }
            b'{' => {
                p.i += 1;
                let f = self.ty_list(p, b'}')?;
                Ok(self.ty(Ty::Struct(false, f)))
            }
            b'd' if p.word_is("double") => Ok(self.ty(Ty::Int(64))),
            b'f' if p.word_is("float") => Ok(self.ty(Ty::Int(32))),
            b'm' if p.word_is("metadata") => Ok(self.ty(Ty::Other)),
            b'l' if p.word_is("label") => Ok(self.ty(Ty::Other)),
            _ => Err(format!("type expected at {}", p.ctx())),
        }
    }
    fn is_ty(p: &P) -> bool {
        match p.peek() {
            b'i' => p.at(1).is_ascii_digit(),
            b'p' => p.looking("ptr") && !p.at(3).is_ascii_alphanumeric(),
            b'v' => p.looking("void"),
            b'[' | b'<' | b'{' => true,
            b'd' => p.looking("double"),
            b'f' => p.looking("float"),
            b'm' => p.looking("metadata"),
            _ => false,
        }
    }
    fn ty_list(&mut self, p: &mut P, close: u8) -> R<Vec<TyId>> {
        let mut f = vec![];
        loop {
            p.sp();
            if p.peek() == close {
                p.i += 1;
                return Ok(f);
            }
            if p.peek() == b',' {
                p.i += 1;
                continue;
            }
            f.push(self.parse_ty(p)?);
        }
    }
    /// skip parameter / return attributes
    fn skip_attrs(&mut self, p: &mut P) {
        loop {
            p.sp();
            let c = p.peek();
            if c == b'"' {
                // "key"="value"
                p.i += 1;
                while p.peek() != b'"' {
                    p.i += 1
                }
                p.i += 1;
                if p.peek() == b'=' {
                    p.i += 2;
                    while p.peek() != b'"' {
                        p.i += 1
                    }
                    p.i += 1;
                }
                continue;
            }
            if c == b'#' {
                p.i += 1;
                let _ = p.num();
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let save = p.i;
            let w = p.word();
            match w {
                b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none"
                | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"sub" | b"add" | b"trunc" | b"xor"
                | b"bitcast" | b"splat" | b"c" | b"blockaddress" | b"asm" | b"ptrtoaddr" => {
                    p.i = save;
                    return;
                }
                b"align" | b"cc" => {
                    p.sp();
                    if p.peek() == b'(' {
                        p.balanced()
                    } else {
                        let _ = p.num();
                    }
                }
                _ => {
                    if p.peek() == b'(' {
                        p.balanced()
                    }
                }
            }
        }
    }

    fn konst(&mut self, v: Val) -> Opd {
        match v {
            Val::I(x) => Opd::I(x),
            v => {
                self.consts.push(v);
                Opd::K(self.consts.len() as u32 - 1)
            }
        }
    }
    fn sym_addr(&mut self, n: &[u8]) -> R<u64> {
        if let Some(&f) = self.fmap.get(n) {
            let s = &self.fns[f as usize];
            if s.weak && !(self.weak_ok)(&s.name) {
                return Ok(0);
            }
            return Ok(Self::fn_addr(f));
        }
        if let Some(&g) = self.gmap.get(n) {
            if self.globs[g as usize].weak {
                return Ok(0);
            }
            return Ok(Self::glob_addr(g));
        }
        Err(format!("unknown symbol @{}", String::from_utf8_lossy(n)))
    }
    fn const_val(&mut self, p: &mut P, t: TyId) -> R<Val> {
        p.sp();
        let c = p.peek();
        match c {
            b'@' => {
                p.i += 1;
                let n = p.name();
                Ok(Val::I(self.sym_addr(&n)?))
            }
            b'+' | b'-' if p.at(1).is_ascii_alphabetic() => {
                let neg = c == b'-';
                p.i += 1;
                let w = p.word().to_vec();
                let v = match &w[..] {
                    b"inf" => f64::INFINITY,
                    b"qnan" | b"nan" => f64::NAN,
                    _ => return Err(format!("constant expected at {}", p.ctx())),
                };
                let v = if neg { -v } else { v };
                Ok(Val::I(if self.scalar_w(t) == Some(32) { (v as f32).to_bits() as u64 } else { v.to_bits() }))
            }
            b'0'..=b'9' | b'-' => {
                let start = p.i;
                let neg = c == b'-';
                if neg {
                    p.i += 1
                }
                if p.looking("0x") {
                    // float constant: keep bits
                    p.i += 2;
                    let mut v = 0u64;
                    while p.peek().is_ascii_hexdigit() {
                        v = v << 4 | hexv(p.peek()) as u64;
                        p.i += 1;
                    }
                    if self.scalar_w(t) == Some(32) {
                        v = (f64::from_bits(v) as f32).to_bits() as u64;
                    }
                    return Ok(Val::I(v));
                }
                let mut v = 0u128;
                while p.peek().is_ascii_digit() {
                    v = v.wrapping_mul(10).wrapping_add((p.peek() - b'0') as u128);
                    p.i += 1;
                }
                if p.peek() == b'.' {
                    while p.peek().is_ascii_alphanumeric() || matches!(p.peek(), b'.' | b'+' | b'-') {
                        p.i += 1
                    }
                    let v: f64 = std::str::from_utf8(&p.s[start..p.i])
                        .ok()
                        .and_then(|s| s.parse().ok())
                        .ok_or("float literal")?;
                    return Ok(Val::I(if self.scalar_w(t) == Some(32) { (v as f32).to_bits() as u64 } else { v.to_bits() }));
                }
                if neg {
                    v = v.wrapping_neg()
                }
                let w = self.scalar_w(t).ok_or("int const of non scalar")?;
                let v = v & mask(w);
                Ok(if w > 64 { Val::W(Rc::new(v)) } else { Val::I(v as u64) })
            }
            b'c' if p.at(1) == b'"' => {
                p.i += 2;
                let mut v = vec![];
                while p.peek() != b'"' {
                    if p.i >= p.end {
                        return Err("unterminated string constant".into());
                    }
                    let mut ch = p.peek();
                    p.i += 1;
                    if ch == b'\\' && p.peek() == b'\\' {
                        p.i += 1;
                    } else if ch == b'\\' {
                        ch = hexv(p.peek()) << 4 | hexv(p.at(1));
                        p.i += 2;
                    }
                    v.push(Val::I(ch as u64));
                }
                p.i += 1;
                Ok(Val::A(Rc::new(v)))
            }
            b'[' => {
                p.i += 1;
                self.const_list(p, b']')
            }
            b'{' => {
                p.i += 1;
                self.const_list(p, b'}')
            }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' {
                    p.i += 1;
                    let v = self.const_list(p, b'}')?;
                    p.need(">")?;
                    Ok(v)
                } else {
                    self.const_list(p, b'>')
                }
            }
            _ => {
                let w = p.word().to_vec();
                match &w[..] {
                    b"true" => Ok(Val::I(1)),
                    b"false" | b"null" => Ok(Val::I(0)),
                    b"undef" | b"poison" | b"zeroinitializer" | b"none" => Ok(self.zero(t)),
                    b"splat" => {
                        p.need("(")?;
                        let et = self.parse_ty(p)?;
                        let v = self.const_val(p, et)?;
                        p.need(")")?;
                        let n = self.nfields(t);
                        Ok(Val::A(Rc::new(vec![v; n])))
                    }
                    b"getelementptr" => {
                        loop {
                            p.sp();
                            if p.peek() == b'(' {
                                break;
                            }
                            let _ = p.word();
                            if p.looking("(") && !p.looking("( ") && p.s[p.i - 1] == b'e' {
                                // inrange(a, b)
                                p.balanced();
                            }
                        }
                        p.need("(")?;
                        let st = self.parse_ty(p)?;
                        p.need(",")?;
                        let bt = self.parse_ty(p)?;
                        let base = self.const_val(p, bt)?;
                        let mut idx = vec![];
                        while p.eat(",") {
                            let it = self.parse_ty(p)?;
                            let v = self.const_val(p, it)?;
                            idx.push((v, it));
                        }
                        p.need(")")?;
                        let mut cur = st;
                        let mut off = 0i64;
                        for (k, (v, it)) in idx.iter().enumerate() {
                            let Val::I(x) = v else { return Err("gep const".into()) };
                            let w = self.scalar_w(*it).unwrap();
                            let x = crate::expr::sx(*x as u128, w) as i64;
                            if k == 0 {
                                off += x * self.size(st) as i64;
                            } else {
                                let (o, e) = match self.tys[cur as usize] {
                                    Ty::Struct(..) => self.field_off(cur, x as usize),
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        ((self.size(e) as i64 * x) as u64, e)
                                    }
                                    _ => return Err("gep const scalar".into()),
                                };
                                off += o as i64;
                                cur = e;
                            }
                        }
                        match base {
                            Val::I(b) => Ok(Val::I(b.wrapping_add(off as u64))),
                            _ => Err("gep base".into()),
                        }
                    }
                    b"inttoptr" | b"ptrtoint" | b"trunc" | b"bitcast" | b"ptrtoaddr" => {
                        p.need("(")?;
                        let ft = self.parse_ty(p)?;
                        let v = self.const_val(p, ft)?;
                        p.need("to")?;
                        let tt = self.parse_ty(p)?;
                        p.need(")")?;
                        match (v, self.scalar_w(tt)) {
                            (Val::I(x), Some(w)) if w <= 64 => Ok(Val::I(x & mask(w) as u64)),
                            _ => Err("constexpr cast".into()),
                        }
                    }
                    b"add" | b"sub" | b"xor" => {
                        loop {
                            p.sp();
                            if p.peek() == b'(' {
                                break;
                            }
                            let _ = p.word();
                        }
                        p.need("(")?;
                        let t1 = self.parse_ty(p)?;
                        let a = self.const_val(p, t1)?;
                        p.need(",")?;
                        let t2 = self.parse_ty(p)?;
                        let b = self.const_val(p, t2)?;
                        p.need(")")?;
                        match (a, b) {
                            (Val::I(a), Val::I(b)) => Ok(Val::I(match &w[..] {
                                b"add" => a.wrapping_add(b),
                                b"sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            })),
                            _ => Err("constexpr bin".into()),
                        }
                    }
                    _ => Err(format!("constant expected at {}", p.ctx())),
                }
            }
        }
    }
    fn const_list(&mut self, p: &mut P, close: u8) -> R<Val> {
        let mut v = vec![];
        loop {
            p.sp();
            if p.peek() == close {
                p.i += 1;
                return Ok(Val::A(Rc::new(v)));
            }
            if p.peek() == b',' {
                p.i += 1;
                continue;
            }
            let t = self.parse_ty(p)?;
            v.push(self.const_val(p, t)?);
        }
    }
    fn put(&self, data: &mut [u8], t: TyId, v: &Val) {
        match (&self.tys[t as usize], v) {
            (Ty::Int(w), Val::I(x)) => {
                let n = (*w as usize + 7) / 8;
                data[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (Ty::Int(w), Val::W(x)) => {
                let n = (*w as usize + 7) / 8;
                data[..n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (Ty::Ptr, Val::I(x)) => data[..8].copy_from_slice(&x.to_le_bytes()),
            (_, Val::A(l)) => {
                for (k, x) in l.iter().enumerate() {
                    let (o, e) = self.field_off(t, k);
                    self.put(&mut data[o as usize..], e, x);
                }
            }
            (a, b) => panic!("put {a:?} {b:?}"),
        }
    }
    pub fn global(&mut self, g: u32) -> R<Rc<GlobInit>> {
        if let Some(x) = &self.ginit[g as usize] {
            return Ok(x.clone());
        }
        let s = self.globs[g as usize].clone();
        if !s.defined {
            // external data object (e.g. environ): 8 zero bytes
            if &*s.name == "environ" || &*s.name == "__dso_handle" {
                let r = Rc::new(GlobInit { data: vec![0; 8], constant: false });
                self.ginit[g as usize] = Some(r.clone());
                return Ok(r);
            }
            return Err(format!("external global {}", s.name));
        }
        let text = std::mem::take(&mut self.text);
        let r = (|| {
            let mut p = P::new(&text, s.range.0, s.range.1);
            loop {
                p.sp();
                let w = p.word();
                if w == b"global" || w == b"constant" {
                    break;
                }
                if w == b"alias" {
                    return Err(format!("alias {}", s.name));
                }
                if w.is_empty() {
                    return Err(format!("global {}: {}", s.name, p.ctx()));
                }
                if p.peek() == b'(' {
                    p.balanced()
                }
            }
            let t = self.parse_ty(&mut p)?;
            let mut data = vec![0u8; self.size(t) as usize];
            p.sp();
            if !p.looking("zeroinitializer") && !p.looking("undef") {
                let v = self.const_val(&mut p, t)?;
                self.put(&mut data, t, &v);
            }
            Ok(Rc::new(GlobInit { data, constant: s.constant }))
        })();
        self.text = text;
        let r = r?;
        self.ginit[g as usize] = Some(r.clone());
        Ok(r)
    }

    pub fn body(&mut self, f: u32) -> R<Rc<Func>> {
        if let Some(b) = &self.bodies[f as usize] {
            return Ok(b.clone());
        }
        let s = self.fns[f as usize].clone();
        if !s.defined {
            return Err(format!("no body for {}", s.name));
        }
        let text = std::mem::take(&mut self.text);
        let r = self.parse_fn(&text, &s);
        self.text = text;
        let r = Rc::new(r.map_err(|e| format!("in {}: {e}", s.name))?);
        self.bodies[f as usize] = Some(r.clone());
        Ok(r)
    }

    fn opd(&mut self, p: &mut P, t: TyId, cx: &mut FnCx) -> R<Opd> {
        p.sp();
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            return Ok(Opd::R(cx.reg(n)));
        }
        let v = self.const_val(p, t)?;
        Ok(self.konst(v))
    }
    fn tyopd(&mut self, p: &mut P, cx: &mut FnCx) -> R<(TyId, Opd)> {
        let t = self.parse_ty(p)?;
        let o = self.opd(p, t, cx)?;
        Ok((t, o))
    }

    fn parse_fn(&mut self, text: &[u8], s: &Sym) -> R<Func> {
        let mut p = P::new(text, s.range.0, s.range.1);
        while p.peek() != b'@' {
            p.i += 1
        }
        p.i += 1;
        let _ = p.name();
        p.need("(")?;
        let mut cx = FnCx { regs: FxMap::default(), n: 0, labels: FxMap::default() };
        let mut nargs = 0;
        loop {
            p.sp();
            if p.peek() == b')' {
                p.i += 1;
                break;
            }
            if p.peek() == b',' {
                p.i += 1;
                continue;
            }
            if p.eat("...") {
                continue;
            }
            let _ = self.parse_ty(&mut p)?;
            self.skip_attrs(&mut p);
            p.sp();
            if p.peek() == b'%' {
                p.i += 1;
                let n = p.name();
                let r = cx.reg(n);
                assert_eq!(r, nargs);
            } else {
                cx.n += 1;
            }
            nargs += 1;
        }
        p.line(); // to end of define line
        p.i += 1;
        // labels: scan lines
        let body0 = p.i;
        let mut i = body0;
        let mut nblocks = 0u32;
        let mut first = true;
        while i < s.range.1 {
            let le = text[i..s.range.1].iter().position(|&c| c == b'\n').map(|k| i + k).unwrap_or(s.range.1);
            let c = text[i];
            if c != b' ' && c != b'}' && c != b'\n' && i < le {
                let mut q = P::new(text, i, le);
                let n = q.name();
                if q.peek() == b':' {
                    cx.labels.insert(n, nblocks);
                    nblocks += 1;
                    first = false;
                }
            } else if first && i < le {
                // implicit entry label = next unnamed number
                cx.labels.insert(nargs.to_string().into_bytes(), 0);
                nblocks = 1;
                first = false;
            }
            i = le + 1;
        }
        let mut blocks: Vec<Vec<Ins>> = vec![];
        let mut phis: Vec<Vec<(u32, Vec<(Opd, u32)>)>> = vec![];
        let mut cur: Vec<Ins> = vec![];
        let mut cphi = vec![];
        let mut started = false;
        loop {
            p.ws();
            if p.peek() == b'}' || p.i >= p.end {
                break;
            }
            // label?
            let save = p.i;
            let line_start = text[p.i - 1] == b'\n';
            if line_start {
                let _ = p.name();
                if p.peek() == b':' {
                    p.i += 1;
                    if started {
                        blocks.push(std::mem::take(&mut cur));
                        phis.push(std::mem::take(&mut cphi));
                    }
                    started = true;
                    continue;
                }
                p.i = save;
            }
            started = true;
            let ins = self.parse_ins(&mut p, &mut cx, &mut cphi)?;
            p.line();
            self.parsed_instrs += 1;
            if !matches!(ins, Ins::Nop) {
                cur.push(ins);
            }
        }
        blocks.push(cur);
        phis.push(cphi);
        if blocks.len() as u32 != nblocks {
            return Err(format!("block count {} vs {}", blocks.len(), nblocks));
        }
        // resolve phi edges
        for b in 0..blocks.len() {
            let fix = |e: &mut Edge| -> R<()> {
                let mut mv = vec![];
                for (d, inc) in &phis[e.to as usize] {
                    let o = inc
                        .iter()
                        .find(|(_, l)| *l == b as u32)
                        .ok_or_else(|| format!("phi without incoming block {b}"))?;
                    mv.push((*d, o.0));
                }
                e.moves = mv.into();
                Ok(())
            };
            if let Some(t) = blocks[b].last_mut() {
                match t {
                    Ins::Br(e) => fix(e)?,
                    Ins::CondBr { t, f, .. } => {
                        fix(t)?;
                        fix(f)?
                    }
                    Ins::Switch { def, cases, .. } => {
                        fix(def)?;
                        for (_, e) in cases.iter_mut() {
                            fix(e)?
                        }
                    }
                    Ins::Call(c) => {
                        if let Some(e) = &mut c.cont {
                            fix(e)?
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(Func { name: s.name.clone(), nargs, nregs: cx.n, blocks })
    }

    fn lab(&mut self, p: &mut P, cx: &mut FnCx) -> R<Edge> {
        p.need("label")?;
        p.need("%")?;
        let n = p.name();
        Ok(Edge { to: cx.label(&n)?, moves: Box::new([]) })
    }

    fn parse_ins(
        &mut self,
        p: &mut P,
        cx: &mut FnCx,
        cphi: &mut Vec<(u32, Vec<(Opd, u32)>)>,
    ) -> R<Ins> {
        p.sp();
        let mut dst = NODST;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name();
            dst = cx.reg(n);
            p.need("=")?;
            p.sp();
        }
        if p.peek() == b'#' {
            return Ok(Ins::Nop); // debug record
        }
        let w = p.word().to_vec();
        let binop = match &w[..] {
            b"add" => Some(BinOp::Add),
            b"sub" => Some(BinOp::Sub),
            b"mul" => Some(BinOp::Mul),
            b"udiv" => Some(BinOp::UDiv),
            b"sdiv" => Some(BinOp::SDiv),
            b"urem" => Some(BinOp::URem),
            b"srem" => Some(BinOp::SRem),
            b"shl" => Some(BinOp::Shl),
            b"lshr" => Some(BinOp::LShr),
            b"ashr" => Some(BinOp::AShr),
            b"and" => Some(BinOp::And),
            b"or" => Some(BinOp::Or),
            b"xor" => Some(BinOp::Xor),
            _ => None,
        };
        if let Some(op) = binop {
            self.skip_flags(p);
            let (t, a) = self.tyopd(p, cx)?;
            p.need(",")?;
            let b = self.opd(p, t, cx)?;
            return Ok(if let Some(w) = self.scalar_w(t) {
                Ins::Bin { op, w, a, b, dst }
            } else {
                Ins::VBin { op, w: self.elem_w(t).ok_or("vbin")?, a, b, dst }
            });
        }
        match &w[..] {
            b"icmp" => {
                let mut pw = p.word().to_vec();
                if pw == b"samesign" {
                    pw = p.word().to_vec();
                }
                let pr = match &pw[..] {
                    b"eq" => IPred::Eq,
                    b"ne" => IPred::Ne,
                    b"ugt" => IPred::Ugt,
                    b"uge" => IPred::Uge,
                    b"ult" => IPred::Ult,
                    b"ule" => IPred::Ule,
                    b"sgt" => IPred::Sgt,
                    b"sge" => IPred::Sge,
                    b"slt" => IPred::Slt,
                    b"sle" => IPred::Sle,
                    _ => return Err("icmp pred".into()),
                };
                let (t, a) = self.tyopd(p, cx)?;
                p.need(",")?;
                let b = self.opd(p, t, cx)?;
                Ok(if let Some(w) = self.scalar_w(t) {
                    Ins::ICmp { p: pr, w, a, b, dst }
                } else {
                    Ins::VICmp { p: pr, w: self.elem_w(t).ok_or("vicmp")?, a, b, dst }
                })
            }
            b"load" => {
                while p.word_is("atomic") || p.word_is("volatile") {}
                let t = self.parse_ty(p)?;
                p.need(",")?;
                let (_, ptr) = self.tyopd(p, cx)?;
                Ok(match self.scalar_w(t) {
                    Some(w) if w <= 64 => Ins::Load { w, bytes: (w + 7) / 8, ptr, dst },
                    _ => Ins::LoadAgg { ty: t, ptr, dst },
                })
            }
            b"store" => {
                while p.word_is("atomic") || p.word_is("volatile") {}
                let (t, val) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (_, ptr) = self.tyopd(p, cx)?;
                Ok(match self.scalar_w(t) {
                    Some(w) if w <= 64 => Ins::Store { w, bytes: (w + 7) / 8, val, ptr },
                    _ => Ins::StoreAgg { ty: t, val, ptr },
                })
            }
            b"getelementptr" => {
                self.skip_flags(p);
                let st = self.parse_ty(p)?;
                p.need(",")?;
                let (bt, base) = self.tyopd(p, cx)?;
                if self.scalar_w(bt).is_none() {
                    return Ok(Ins::Bad("vector gep".into()));
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = st;
                let mut k = 0;
                loop {
                    p.sp();
                    if p.peek() != b',' || p.looking(", !") {
                        break;
                    }
                    p.i += 1;
                    let (it, v) = self.tyopd(p, cx)?;
                    let iw = match self.scalar_w(it) {
                        Some(w) => w,
                        None => return Ok(Ins::Bad("vector gep".into())),
                    };
                    let (scale, is_struct) = if k == 0 {
                        (self.size(st) as i64, false)
                    } else {
                        match self.tys[cur as usize] {
                            Ty::Struct(..) => (0, true),
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                cur = e;
                                (self.size(e) as i64, false)
                            }
                            _ => return Err("gep into scalar".into()),
                        }
                    };
                    match v {
                        Opd::I(x) => {
                            let x = crate::expr::sx(x as u128, iw) as i64;
                            if is_struct {
                                let (o, e) = self.field_off(cur, x as usize);
                                off += o as i64;
                                cur = e;
                            } else {
                                off = off.wrapping_add(x.wrapping_mul(scale));
                            }
                        }
                        v => {
                            if is_struct {
                                return Err("gep struct var".into());
                            }
                            idx.push((v, scale, iw));
                        }
                    }
                    k += 1;
                }
                Ok(Ins::Gep { base, off, idx: idx.into(), dst })
            }
            b"alloca" => {
                p.word_is("inalloca");
                let t = self.parse_ty(p)?;
                let size = self.size(t);
                let mut n = Opd::I(1);
                p.sp();
                if p.looking(", i") {
                    p.i += 1;
                    n = self.tyopd(p, cx)?.1;
                }
                Ok(Ins::Alloca { size, n, dst })
            }
            b"zext" | b"sext" | b"trunc" => {
                self.skip_flags(p);
                let (ft, a) = self.tyopd(p, cx)?;
                p.need("to")?;
                let tt = self.parse_ty(p)?;
                let k = match &w[..] {
                    b"zext" => Cast::ZExt,
                    b"sext" => Cast::SExt,
                    _ => Cast::Trunc,
                };
                Ok(match (self.scalar_w(ft), self.scalar_w(tt)) {
                    (Some(fw), Some(tw)) => Ins::Cast { k, fw, tw, a, dst },
                    _ => Ins::VCast {
                        k,
                        fw: self.elem_w(ft).ok_or("vcast")?,
                        tw: self.elem_w(tt).ok_or("vcast")?,
                        a,
                        dst,
                    },
                })
            }
            b"ptrtoint" | b"inttoptr" | b"ptrtoaddr" => {
                self.skip_flags(p);
                let (ft, a) = self.tyopd(p, cx)?;
                p.need("to")?;
                let tt = self.parse_ty(p)?;
                match (self.scalar_w(ft), self.scalar_w(tt)) {
                    (Some(fw), Some(tw)) => Ok(if fw == tw {
                        Ins::Mov { a, dst }
                    } else if tw < fw {
                        Ins::Cast { k: Cast::Trunc, fw, tw, a, dst }
                    } else {
                        Ins::Cast { k: Cast::ZExt, fw, tw, a, dst }
                    }),
                    _ => Ok(Ins::Bad("vector ptrtoint".into())),
                }
            }
            b"bitcast" => {
                let (ft, a) = self.tyopd(p, cx)?;
                p.need("to")?;
                let tt = self.parse_ty(p)?;
                Ok(Ins::BitCast { from: ft, to: tt, a, dst })
            }
            b"freeze" => {
                let (_, a) = self.tyopd(p, cx)?;
                Ok(Ins::Mov { a, dst })
            }
            b"select" => {
                self.skip_flags(p);
                let (ct, c) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (t, a) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (_, b) = self.tyopd(p, cx)?;
                Ok(if self.scalar_w(ct).is_some() {
                    Ins::Select { c, a, b, ty: t, dst }
                } else {
                    Ins::VSelect { c, a, b, ty: t, dst }
                })
            }
            b"extractvalue" => {
                let (_, a) = self.tyopd(p, cx)?;
                let mut path = vec![];
                while p.eat(",") {
                    p.sp();
                    if p.peek() == b'!' {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                Ok(Ins::ExtractV { a, path: path.into(), dst })
            }
            b"insertvalue" => {
                let (_, a) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (_, v) = self.tyopd(p, cx)?;
                let mut path = vec![];
                while p.eat(",") {
                    p.sp();
                    if p.peek() == b'!' {
                        break;
                    }
                    path.push(p.num()? as u32);
                }
                Ok(Ins::InsertV { a, v, path: path.into(), dst })
            }
            b"extractelement" => {
                let (_, a) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (_, i) = self.tyopd(p, cx)?;
                Ok(Ins::ExtractE { a, i, dst })
            }
            b"insertelement" => {
                let (_, a) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (_, v) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (_, i) = self.tyopd(p, cx)?;
                Ok(Ins::InsertE { a, v, i, dst })
            }
            b"shufflevector" => {
                let (t, a) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (_, b) = self.tyopd(p, cx)?;
                p.need(",")?;
                let mt = self.parse_ty(p)?;
                let v = self.const_val(p, mt)?;
                let Val::A(l) = v else { return Err("shuffle mask".into()) };
                let m: Vec<i32> = l
                    .iter()
                    .map(|x| if let Val::I(k) = x { *k as i32 } else { -1 })
                    .collect();
                let n = self.nfields(t) as u32;
                let et = match self.tys[t as usize] {
                    Ty::Vec(_, e) => e,
                    _ => return Err("shuffle ty".into()),
                };
                let z = self.zero(et);
                let zero = self.konst(z);
                Ok(Ins::Shuffle { a, b, m: m.into(), n, dst, zero })
            }
            b"atomicrmw" => {
                p.word_is("volatile");
                let ow = p.word().to_vec();
                let op = match &ow[..] {
                    b"xchg" => Rmw::Xchg,
                    b"add" => Rmw::Add,
                    b"sub" => Rmw::Sub,
                    b"and" => Rmw::And,
                    b"or" => Rmw::Or,
                    b"xor" => Rmw::Xor,
                    b"nand" => Rmw::Nand,
                    b"max" => Rmw::Max,
                    b"min" => Rmw::Min,
                    b"umax" => Rmw::UMax,
                    b"umin" => Rmw::UMin,
                    _ => return Ok(Ins::Bad("atomicrmw op".into())),
                };
                let (_, ptr) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (t, v) = self.tyopd(p, cx)?;
                let w = self.scalar_w(t).ok_or("rmw")?;
                Ok(Ins::Rmw { op, w, ptr, v, dst })
            }
            b"cmpxchg" => {
                while p.word_is("weak") || p.word_is("volatile") {}
                let (_, ptr) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (t, c) = self.tyopd(p, cx)?;
                p.need(",")?;
                let (_, n) = self.tyopd(p, cx)?;
                let w = self.scalar_w(t).ok_or("cmpxchg")?;
                Ok(Ins::CmpXchg { w, ptr, c, n, dst })
            }
            b"fence" => Ok(Ins::Nop),
            b"br" => {
                p.sp();
                if p.looking("label") {
                    let e = self.lab(p, cx)?;
                    return Ok(Ins::Br(e));
                }
                let (_, c) = self.tyopd(p, cx)?;
                p.need(",")?;
                let t = self.lab(p, cx)?;
                p.need(",")?;
                let f = self.lab(p, cx)?;
                Ok(Ins::CondBr { c, t, f })
            }
            b"switch" => {
                let (t, v) = self.tyopd(p, cx)?;
                let w = self.scalar_w(t).ok_or("switch")?;
                p.need(",")?;
                let def = self.lab(p, cx)?;
                p.need("[")?;
                let mut cases = vec![];
                let mut wide = false;
                loop {
                    p.ws();
                    if p.peek() == b']' {
                        p.i += 1;
                        break;
                    }
                    let ct = self.parse_ty(p)?;
                    let cv = self.const_val(p, ct)?;
                    p.need(",")?;
                    let e = self.lab(p, cx)?;
                    match cv {
                        Val::I(x) => cases.push((x, e)),
                        _ => wide = true,
                    }
                }
                if wide {
                    return Ok(Ins::Bad("wide switch".into()));
                }
                Ok(Ins::Switch { w, v, def, cases: cases.into() })
            }
            b"ret" => {
                p.sp();
                if p.looking("void") {
                    return Ok(Ins::Ret(None));
                }
                let (_, v) = self.tyopd(p, cx)?;
                Ok(Ins::Ret(Some(v)))
            }
            b"unreachable" => Ok(Ins::Unreachable),
            b"phi" => {
                self.skip_flags(p);
                let t = self.parse_ty(p)?;
                let mut inc = vec![];
                loop {
                    p.need("[")?;
                    let v = self.opd(p, t, cx)?;
                    p.need(",")?;
                    p.need("%")?;
                    let n = p.name();
                    p.need("]")?;
                    inc.push((v, cx.label(&n)?));
                    p.sp();
                    if p.looking(", [") {
                        p.i += 1;
                        p.sp();
                    } else {
                        break;
                    }
                }
                cphi.push((dst, inc));
                Ok(Ins::Nop)
            }
            b"landingpad" => {
                // swallow clause lines
                let _ = self.parse_ty(p)?;
                loop {
                    p.line();
                    let save = p.i;
                    p.ws();
                    if p.word_is("cleanup") || p.word_is("catch") || p.word_is("filter") {
                        continue;
                    }
                    p.i = save;
                    break;
                }
                Ok(Ins::Bad("landingpad".into()))
            }
            b"resume" => Ok(Ins::Bad("resume".into())),
            b"tail" | b"musttail" | b"notail" => {
                p.need("call")?;
                self.parse_call(p, cx, dst, false)
            }
            b"call" => self.parse_call(p, cx, dst, false),
            b"invoke" => self.parse_call(p, cx, dst, true),
            b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" | b"fneg" => {
                self.skip_flags(p);
                let (t, a) = self.tyopd(p, cx)?;
                let b = if w == b"fneg" {
                    a
                } else {
                    p.need(",")?;
                    self.opd(p, t, cx)?
                };
                let k: Rc<str> = String::from_utf8_lossy(&w).as_ref().into();
                Ok(match self.scalar_w(t) {
                    Some(fw) => Ins::Fp { k, fw, tw: fw, a, b, dst },
                    None => Ins::Bad(k),
                })
            }
            b"fcmp" => {
                let mut k = p.word().to_vec();
                while matches!(&k[..], b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"fast") {
                    k = p.word().to_vec();
                }
                let (t, a) = self.tyopd(p, cx)?;
                p.need(",")?;
                let b = self.opd(p, t, cx)?;
                let k: Rc<str> = String::from_utf8_lossy(&k).as_ref().into();
                Ok(match self.scalar_w(t) {
                    Some(fw) => Ins::Fp { k, fw, tw: 1, a, b, dst },
                    None => Ins::Bad("fcmp".into()),
                })
            }
            b"uitofp" | b"sitofp" | b"fptoui" | b"fptosi" | b"fpext" | b"fptrunc" => {
                self.skip_flags(p);
                let (ft, a) = self.tyopd(p, cx)?;
                p.need("to")?;
                let tt = self.parse_ty(p)?;
                let k: Rc<str> = String::from_utf8_lossy(&w).as_ref().into();
                Ok(match (self.scalar_w(ft), self.scalar_w(tt)) {
                    (Some(fw), Some(tw)) if fw <= 64 && tw <= 64 => Ins::Fp { k, fw, tw, a, b: a, dst },
                    _ => Ins::Bad(k),
                })
            }
            b"va_arg" | b"indirectbr" => {
                Ok(Ins::Bad(String::from_utf8_lossy(&w).as_ref().into()))
            }
            _ => Err(format!("unknown instruction {} at {}", String::from_utf8_lossy(&w), p.ctx())),
        }
    }
    fn skip_flags(&mut self, p: &mut P) {
        loop {
            p.sp();
            if Self::is_ty(p) {
                return;
            }
            if !p.peek().is_ascii_alphabetic() {
                return;
            }
            let _ = p.word();
            if p.peek() == b'(' {
                p.balanced()
            }
        }
    }

    fn parse_call(&mut self, p: &mut P, cx: &mut FnCx, dst: u32, invoke: bool) -> R<Ins> {
        // calling convention, return attributes
        loop {
            p.sp();
            if Self::is_ty(p) {
                break;
            }
            if !p.peek().is_ascii_alphabetic() {
                return Err(format!("call: {}", p.ctx()));
            }
            let w = p.word().to_vec();
            if w == b"align" || w == b"cc" {
                p.sp();
                let _ = p.num();
            }
            if p.peek() == b'(' {
                p.balanced()
            }
        }
        let ret = self.parse_ty(p)?;
        p.sp();
        if p.peek() == b'(' {
            p.balanced(); // function type of vararg call
            p.sp();
        }
        let callee;
        if p.looking("asm") {
            p.i += 3;
            let st = p.i;
            while p.peek() != b'"' {
                p.i += 1
            }
            p.i += 1;
            let b = p.i;
            while p.peek() != b'"' {
                p.i += 1
            }
            let body = String::from_utf8_lossy(&p.s[b..p.i]).to_string();
            p.i += 1;
            p.need(",")?;
            p.need("\"")?;
            while p.peek() != b'"' {
                p.i += 1
            }
            p.i += 1;
            let _ = st;
            callee = if body.is_empty() {
                Callee::AsmNop
            } else if body.contains("cpuid") {
                Callee::AsmCpuid
            } else {
                return Ok(Ins::Bad(format!("asm {body}").as_str().into()));
            };
        } else if p.peek() == b'@' {
            p.i += 1;
            let n = p.name();
            match self.fmap.get(&n) {
                Some(&f) => callee = Callee::F(f),
                None => return Err(format!("unknown callee {}", String::from_utf8_lossy(&n))),
            }
        } else {
            let pt = self.ty(Ty::Ptr);
            let o = self.opd(p, pt, cx)?;
            callee = Callee::Ind(o);
        }
        p.need("(")?;
        let mut args = vec![];
        let mut tys = vec![];
        loop {
            p.sp();
            if p.peek() == b')' {
                p.i += 1;
                break;
            }
            if p.peek() == b',' {
                p.i += 1;
                continue;
            }
            if p.looking("metadata") {
                // skip to , or ) at depth 0
                while p.peek() != b',' && p.peek() != b')' {
                    if p.peek() == b'(' {
                        p.balanced()
                    } else {
                        p.i += 1
                    }
                }
                continue;
            }
            let t = self.parse_ty(p)?;
            self.skip_attrs(p);
            let o = self.opd(p, t, cx)?;
            args.push(o);
            tys.push(t);
        }
        let mut cont = None;
        if invoke {
            // attributes, bundles, then newline "to label %x unwind label %y"
            loop {
                p.ws();
                if p.word_is("to") {
                    break;
                }
                if p.i >= p.end {
                    return Err("invoke".into());
                }
                if p.peek() == b'[' || p.peek() == b'(' {
                    p.balanced()
                } else {
                    p.i += 1
                }
            }
            cont = Some(self.lab(p, cx)?);
        }
        Ok(Ins::Call(Box::new(CallI {
            callee,
            args: args.into(),
            tys: tys.into(),
            ret,
            dst,
            cont,
        })))
    }
}
