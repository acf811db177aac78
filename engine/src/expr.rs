//! Hash-consed bit-vector expressions over 8-bit symbolic input bytes.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

pub const MAXVARS: usize = 512;
pub const VW: usize = MAXVARS / 64;
pub type VarSet = [u64; VW];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pred {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Cmp(Pred, E, E),
    ZExt(E),
    SExt(E),
    /// low bit, operand (width of node gives length)
    Extract(u16, E),
    /// high, low
    Concat(E, E),
    Ite(E, E, E),
    /// 256-entry lookup table indexed by an 8-bit expression
    Table(u32, E),
}

pub struct Info {
    pub node: Node,
    pub w: u16,
    pub leaves: u16, // >0: tree of Ite with constant leaves, number of leaves
    pub size: u32,   // saturating tree size
    pub sup: VarSet,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn fold_bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            if b >= w as u128 {
                (x >> 127) as u128
            } else {
                (x >> b) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
    };
    r & m
}
pub fn fold_cmp(p: Pred, w: u16, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
    }
}

pub struct Ctx {
    pub nodes: Vec<Info>,
    map: FxMap<(Node, u16), E>,
    memo_val: Vec<u128>,
    memo_ep: Vec<u32>,
    epoch: u32,
    masks: FxMap<E, [u64; 4]>,
    pub tables: Vec<std::rc::Rc<[u64; 256]>>,
    tabmap: FxMap<Vec<u64>, u32>,
}

pub const TRUE: E = 1;
pub const FALSE: E = 0;

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            map: FxMap::default(),
            memo_val: vec![],
            memo_ep: vec![],
            epoch: 0,
            masks: FxMap::default(),
            tables: vec![],
            tabmap: FxMap::default(),
        };
        let f = c.cst(1, 0);
        let t = c.cst(1, 1);
        assert!(f == FALSE && t == TRUE);
        c
    }
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn size(&self, e: E) -> u32 {
        self.nodes[e as usize].size
    }
    pub fn node(&self, e: E) -> Node {
        self.nodes[e as usize].node
    }
    pub fn sup(&self, e: E) -> &VarSet {
        &self.nodes[e as usize].sup
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].node {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    fn leaves(&self, e: E) -> u16 {
        self.nodes[e as usize].leaves
    }
    fn intern(&mut self, node: Node, w: u16) -> E {
        if let Some(&e) = self.map.get(&(node, w)) {
            return e;
        }
        let mut sup = [0u64; VW];
        let mut size = 1u32;
        let mut add = |c: &Ctx, e: E| {
            let i = &c.nodes[e as usize];
            for k in 0..VW {
                sup[k] |= i.sup[k];
            }
            size = size.saturating_add(i.size);
        };
        let mut leaves = 0;
        match node {
            Node::Const(_) => leaves = 1,
            Node::Var(v) => {
                assert!((v as usize) < MAXVARS, "too many symbolic bytes");
                sup[v as usize / 64] |= 1 << (v % 64)
            }
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                add(self, a);
                add(self, b)
            }
            Node::ZExt(a) | Node::SExt(a) | Node::Extract(_, a) | Node::Table(_, a) => add(self, a),
            Node::Ite(c, a, b) => {
                add(self, c);
                add(self, a);
                add(self, b);
                let (x, y) = (self.leaves(a), self.leaves(b));
                if x > 0 && y > 0 {
                    leaves = x.saturating_add(y)
                }
            }
        }
        let id = self.nodes.len() as E;
        self.nodes.push(Info {
            node,
            w,
            leaves,
            size,
            sup,
        });
        self.memo_val.push(0);
        self.memo_ep.push(0);
        self.map.insert((node, w), id);
        id
    }
    pub fn cst(&mut self, w: u16, v: u128) -> E {
        self.intern(Node::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, i: u32) -> E {
        self.intern(Node::Var(i), 8)
    }
    pub fn bool_(&self, b: bool) -> E {
        if b {
            TRUE
        } else {
            FALSE
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(w, fold_bin(op, w, x, y));
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        let (a, b, ca, cb) = if comm && ca.is_some() {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        let m = mask(w);
        // identities
        if let Some(y) = cb {
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if y == 0 => {
                    return a
                }
                Op::And if y == 0 => return b,
                Op::And if y == m => return a,
                Op::Or if y == m => return b,
                Op::Mul if y == 0 => return b,
                Op::Mul | Op::UDiv | Op::SDiv if y == 1 => return a,
                Op::URem if y == 1 => return self.cst(w, 0),
                Op::Shl | Op::LShr if y >= w as u128 => return self.cst(w, 0),
                _ => {}
            }
            if op == Op::Sub {
                let k = self.cst(w, y.wrapping_neg());
                return self.bin(Op::Add, a, k);
            }
            if op == Op::Mul && y.is_power_of_two() {
                let k = self.cst(w, y.trailing_zeros() as u128);
                return self.bin(Op::Shl, a, k);
            }
            if op == Op::UDiv && y.is_power_of_two() {
                let k = self.cst(w, y.trailing_zeros() as u128);
                return self.bin(Op::LShr, a, k);
            }
            if op == Op::URem && y.is_power_of_two() {
                let k = self.cst(w, y - 1);
                return self.bin(Op::And, a, k);
            }
        }
        if ca == Some(0) && matches!(op, Op::Shl | Op::LShr | Op::AShr | Op::URem) {
            return a;
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.cst(w, 0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            // boolean xor with true = not
            if op == Op::Xor && cb == Some(1) {
                return self.not(a);
            }
            if op == Op::And || op == Op::Or {
                if let Node::Bin(Op::Xor, x, t) = self.node(a) {
                    if t == TRUE && x == b {
                        return self.bool_(op == Op::Or);
                    }
                }
                if let Node::Bin(Op::Xor, x, t) = self.node(b) {
                    if t == TRUE && x == a {
                        return self.bool_(op == Op::Or);
                    }
                }
            }
        }
        if w <= 64 {
            if let (Node::Table(t, x), Some(y)) = (self.node(a), cb) {
                return self.map_table(t, x, w, w, &|v| fold_bin(op, w, v, y));
            }
            if let (Some(y), Node::Table(t, x)) = (ca, self.node(b)) {
                return self.map_table(t, x, w, w, &|v| fold_bin(op, w, y, v));
            }
            if let (Node::Table(t1, x1), Node::Table(t2, x2)) = (self.node(a), self.node(b)) {
                if x1 == x2 {
                    let (ta, tb) = (self.tables[t1 as usize].clone(), self.tables[t2 as usize].clone());
                    let mut n = [0u64; 256];
                    for i in 0..256 {
                        n[i] = fold_bin(op, w, ta[i] as u128, tb[i] as u128) as u64;
                    }
                    return self.table(w, &n, x1);
                }
            }
        }
        // distribute over ite-trees of constants
        if let Some(y) = cb {
            let l = self.leaves(a);
            if l > 1 && l <= 64 {
                return self.map_leaves(a, w, &mut |v| fold_bin(op, w, v, y));
            }
        }
        if let Some(x) = ca {
            let l = self.leaves(b);
            if l > 1 && l <= 64 {
                return self.map_leaves(b, w, &mut |v| fold_bin(op, w, x, v));
            }
        }
        if let Some(y) = cb {
            match (op, self.node(a)) {
                (Op::Add, Node::Bin(Op::Add, x, k)) | (Op::Xor, Node::Bin(Op::Xor, x, k))
                | (Op::And, Node::Bin(Op::And, x, k)) | (Op::Or, Node::Bin(Op::Or, x, k)) => {
                    if let Some(kv) = self.is_const(k) {
                        let nk = self.cst(w, fold_bin(op, w, kv, y));
                        return self.bin(op, x, nk);
                    }
                }
                (Op::LShr, _) => {
                    // lshr by const = zext(extract)
                    let lo = y as u16;
                    let x = self.extract(lo, w - lo, a);
                    return self.zext(w, x);
                }
                (Op::Shl, _) => {
                    let sh = y as u16;
                    let x = self.extract(0, w - sh, a);
                    let z = self.cst(sh, 0);
                    return self.concat(x, z);
                }
                (Op::And, Node::ZExt(x)) => {
                    let xw = self.w(x);
                    let k = self.cst(xw, y);
                    let r = self.bin(Op::And, x, k);
                    return self.zext(w, r);
                }
                (Op::And, _) if y & (y + 1) == 0 => {
                    // low mask
                    let n = y.trailing_ones() as u16;
                    if n < w {
                        let x = self.extract(0, n, a);
                        return self.zext(w, x);
                    }
                }
                (Op::And | Op::Or | Op::Xor, Node::Concat(h, l)) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kh = self.cst(hw, y >> lw);
                    let kl = self.cst(lw, y);
                    let nh = self.bin(op, h, kh);
                    let nl = self.bin(op, l, kl);
                    return self.concat(nh, nl);
                }
                (Op::Or | Op::Xor, Node::ZExt(x)) if y <= mask(self.w(x)) => {
                    let xw = self.w(x);
                    let k = self.cst(xw, y);
                    let r = self.bin(op, x, k);
                    return self.zext(w, r);
                }
                _ => {}
            }
        }
        if matches!(op, Op::Or | Op::And | Op::Xor) {
            // bitwise on aligned concats / zexts
            if let (Some((h1, l1)), Some((h2, l2))) = (self.split(a), self.split(b)) {
                if self.w(l1) == self.w(l2) {
                    let h = self.bin(op, h1, h2);
                    let l = self.bin(op, l1, l2);
                    return self.concat(h, l);
                }
                // split the wider low part
                let n = self.w(l1).min(self.w(l2));
                let (ah, al) = (self.extract(n, w - n, a), self.extract(0, n, a));
                let (bh, bl) = (self.extract(n, w - n, b), self.extract(0, n, b));
                let h = self.bin(op, ah, bh);
                let l = self.bin(op, al, bl);
                return self.concat(h, l);
            }
        }
        let (a, b) = if comm && cb.is_none() && a > b {
            (b, a)
        } else {
            (a, b)
        };
        self.intern(Node::Bin(op, a, b), w)
    }
    /// view as concat (zext = concat with zero high part)
    fn split(&mut self, e: E) -> Option<(E, E)> {
        match self.node(e) {
            Node::Concat(h, l) => Some((h, l)),
            Node::ZExt(x) => {
                let hw = self.w(e) - self.w(x);
                let z = self.cst(hw, 0);
                Some((z, x))
            }
            _ => None,
        }
    }
    fn map_table(&mut self, t: u32, x: E, w: u16, nw: u16, f: &dyn Fn(u128) -> u128) -> E {
        let _ = w;
        let tb = self.tables[t as usize].clone();
        let mut n = [0u64; 256];
        for i in 0..256 {
            n[i] = f(tb[i] as u128) as u64;
        }
        self.table(nw, &n, x)
    }
    /// lookup of an 8-bit expression in a 256-entry table (entries already masked to `w`)
    pub fn table(&mut self, w: u16, t: &[u64; 256], x: E) -> E {
        debug_assert_eq!(self.w(x), 8);
        if let Some(c) = self.is_const(x) {
            return self.cst(w, t[c as usize] as u128);
        }
        if t.iter().all(|v| *v == t[0]) {
            return self.cst(w, t[0] as u128);
        }
        if w >= 8 && t.iter().enumerate().all(|(i, v)| *v == i as u64) {
            return self.zext(w, x);
        }
        if let Node::Table(t2, y) = self.node(x) {
            let inner = self.tables[t2 as usize].clone();
            let mut n = [0u64; 256];
            for i in 0..256 {
                n[i] = t[inner[i] as usize & 255];
            }
            return self.table(w, &n, y);
        }
        let id = match self.tabmap.get(&t[..]) {
            Some(i) => *i,
            None => {
                let rc = std::rc::Rc::new(*t);
                self.tables.push(rc.clone());
                let i = self.tables.len() as u32 - 1;
                self.tabmap.insert(t.to_vec(), i);
                i
            }
        };
        self.intern(Node::Table(id, x), w)
    }
    /// canonical form of an expression over one byte variable: a lookup table
    pub fn collapse(&mut self, e: E, var: u32) -> E {
        if matches!(self.node(e), Node::Table(_, x) if matches!(self.node(x), Node::Var(_)))
            || matches!(self.node(e), Node::Var(_) | Node::Const(_))
        {
            return e;
        }
        let w = self.w(e);
        if w > 64 {
            return e;
        }
        let mut asg = vec![0u8; var as usize + 1];
        let mut t = [0u64; 256];
        for v in 0..256usize {
            asg[var as usize] = v as u8;
            t[v] = self.eval(e, &asg) as u64;
        }
        let x = self.var(var);
        self.table(w, &t, x)
    }
    /// replace variables fixed to one value by that value
    pub fn subst(&mut self, e: E, fixed: &VarSet, asg: &[u8], memo: &mut FxMap<E, E>) -> E {
        let s = self.sup(e);
        let mut any = false;
        let mut all = true;
        for k in 0..VW {
            any |= s[k] & fixed[k] != 0;
            all &= s[k] & !fixed[k] == 0;
        }
        if !any {
            return e;
        }
        if all {
            let v = self.eval(e, asg);
            return self.cst(self.w(e), v);
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let w = self.w(e);
        let r = match self.node(e) {
            Node::Const(_) | Node::Var(_) => e,
            Node::Bin(o, a, b) => {
                let a = self.subst(a, fixed, asg, memo);
                let b = self.subst(b, fixed, asg, memo);
                self.bin(o, a, b)
            }
            Node::Cmp(o, a, b) => {
                let a = self.subst(a, fixed, asg, memo);
                let b = self.subst(b, fixed, asg, memo);
                self.cmp(o, a, b)
            }
            Node::ZExt(a) => {
                let a = self.subst(a, fixed, asg, memo);
                self.zext(w, a)
            }
            Node::SExt(a) => {
                let a = self.subst(a, fixed, asg, memo);
                self.sext(w, a)
            }
            Node::Extract(l, a) => {
                let a = self.subst(a, fixed, asg, memo);
                self.extract(l, w, a)
            }
            Node::Concat(h, l) => {
                let h = self.subst(h, fixed, asg, memo);
                let l = self.subst(l, fixed, asg, memo);
                self.concat(h, l)
            }
            Node::Ite(c, a, b) => {
                let c = self.subst(c, fixed, asg, memo);
                let a = self.subst(a, fixed, asg, memo);
                let b = self.subst(b, fixed, asg, memo);
                self.ite(c, a, b)
            }
            Node::Table(t, a) => {
                let a = self.subst(a, fixed, asg, memo);
                let tb = self.tables[t as usize].clone();
                self.table(w, &tb, a)
            }
        };
        memo.insert(e, r);
        r
    }
    fn map_leaves(&mut self, e: E, w: u16, f: &mut dyn FnMut(u128) -> u128) -> E {
        match self.node(e) {
            Node::Const(v) => {
                let r = f(v);
                self.cst(w, r)
            }
            Node::Ite(c, a, b) => {
                let x = self.map_leaves(a, w, f);
                let y = self.map_leaves(b, w, f);
                self.ite(c, x, y)
            }
            _ => unreachable!(),
        }
    }
    pub fn not(&mut self, a: E) -> E {
        debug_assert_eq!(self.w(a), 1);
        match self.node(a) {
            Node::Const(v) => self.bool_(v == 0),
            Node::Bin(Op::Xor, x, t) if t == TRUE => x,
            Node::Table(t, x) => self.map_table(t, x, 1, 1, &|v| v ^ 1),
            Node::Cmp(Pred::Ult, x, y) => self.intern(Node::Cmp(Pred::Ule, y, x), 1),
            Node::Cmp(Pred::Ule, x, y) => self.intern(Node::Cmp(Pred::Ult, y, x), 1),
            Node::Cmp(Pred::Slt, x, y) => self.intern(Node::Cmp(Pred::Sle, y, x), 1),
            Node::Cmp(Pred::Sle, x, y) => self.intern(Node::Cmp(Pred::Slt, y, x), 1),
            _ => self.intern(Node::Bin(Op::Xor, a, TRUE), 1),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(Pred::Eq, a, b)
    }
    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.bool_(fold_cmp(p, w, x, y));
        }
        if a == b {
            return self.bool_(matches!(p, Pred::Eq | Pred::Ule | Pred::Sle));
        }
        let (a, b, ca, cb) = if p == Pred::Eq && ca.is_some() {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        if w <= 64 {
            if let (Node::Table(t, x), Some(y)) = (self.node(a), cb) {
                return self.map_table(t, x, w, 1, &|v| fold_cmp(p, w, v, y) as u128);
            }
            if let (Some(y), Node::Table(t, x)) = (ca, self.node(b)) {
                return self.map_table(t, x, w, 1, &|v| fold_cmp(p, w, y, v) as u128);
            }
            if let (Node::Table(t1, x1), Node::Table(t2, x2)) = (self.node(a), self.node(b)) {
                if x1 == x2 {
                    let (ta, tb) = (self.tables[t1 as usize].clone(), self.tables[t2 as usize].clone());
                    let mut n = [0u64; 256];
                    for i in 0..256 {
                        n[i] = fold_cmp(p, w, ta[i] as u128, tb[i] as u128) as u64;
                    }
                    return self.table(1, &n, x1);
                }
            }
        }
        if w == 1 && p == Pred::Eq {
            return match cb {
                Some(1) => a,
                Some(_) => self.not(a),
                None => {
                    let x = self.bin(Op::Xor, a, b);
                    self.not(x)
                }
            };
        }
        // unsigned bounds
        match (p, ca, cb) {
            (Pred::Ult, _, Some(0)) => return FALSE,
            (Pred::Ule, _, Some(y)) if y == mask(w) => return TRUE,
            (Pred::Ult, Some(x), _) if x == mask(w) => return FALSE,
            (Pred::Ule, Some(0), _) => return TRUE,
            (Pred::Ult, _, Some(1)) => {
                let z = self.cst(w, 0);
                return self.eq(a, z);
            }
            (Pred::Ule, _, Some(0)) => return self.eq(a, b),
            (Pred::Ult, Some(0), _) => {
                let z = self.eq(b, a);
                return self.not(z);
            }
            _ => {}
        }
        if let Some(y) = cb {
            let l = self.leaves(a);
            if l > 1 && l <= 256 {
                return self.map_leaves(a, 1, &mut |v| fold_cmp(p, w, v, y) as u128);
            }
        }
        if let Some(x) = ca {
            let l = self.leaves(b);
            if l > 1 && l <= 256 {
                return self.map_leaves(b, 1, &mut |v| fold_cmp(p, w, x, v) as u128);
            }
        }
        // zext
        let za = match self.node(a) {
            Node::ZExt(x) => Some(x),
            _ => None,
        };
        let zb = match self.node(b) {
            Node::ZExt(x) => Some(x),
            _ => None,
        };
        match (za, zb, ca, cb) {
            (Some(x), Some(y), _, _) => {
                let n = self.w(x).max(self.w(y));
                let x2 = self.zext(n, x);
                let y2 = self.zext(n, y);
                let q = match p {
                    Pred::Slt => Pred::Ult,
                    Pred::Sle => Pred::Ule,
                    p => p,
                };
                return self.cmp(q, x2, y2);
            }
            (Some(x), _, _, Some(y)) => {
                let n = self.w(x);
                match p {
                    Pred::Eq => {
                        if y > mask(n) {
                            return FALSE;
                        }
                    }
                    Pred::Ult | Pred::Ule => {
                        if y > mask(n) {
                            return TRUE;
                        }
                    }
                    Pred::Slt | Pred::Sle => {
                        let s = sx(y, w);
                        if s < 0 {
                            return FALSE;
                        }
                        if s as u128 > mask(n) {
                            return TRUE;
                        }
                    }
                }
                let q = match p {
                    Pred::Slt => Pred::Ult,
                    Pred::Sle => Pred::Ule,
                    p => p,
                };
                let k = self.cst(n, y);
                return self.cmp(q, x, k);
            }
            (_, Some(x), Some(y), _) => {
                let n = self.w(x);
                let q = match p {
                    Pred::Slt | Pred::Sle => {
                        let s = sx(y, w);
                        if s < 0 {
                            return TRUE;
                        }
                        if s as u128 > mask(n) {
                            return FALSE;
                        }
                        if p == Pred::Slt {
                            Pred::Ult
                        } else {
                            Pred::Ule
                        }
                    }
                    p => {
                        if y > mask(n) {
                            return FALSE;
                        }
                        p
                    }
                };
                let k = self.cst(n, y);
                return self.cmp(q, k, x);
            }
            _ => {}
        }
        if p == Pred::Eq {
            if let Some(y) = cb {
                match self.node(a) {
                    Node::Concat(h, l) => {
                        let lw = self.w(l);
                        let kh = self.cst(self.w(h), y >> lw);
                        let kl = self.cst(lw, y);
                        let x = self.eq(h, kh);
                        if x == FALSE {
                            return FALSE;
                        }
                        let z = self.eq(l, kl);
                        return self.and(x, z);
                    }
                    Node::Bin(Op::Add, x, k) => {
                        if let Some(kv) = self.is_const(k) {
                            let nk = self.cst(w, y.wrapping_sub(kv));
                            return self.eq(x, nk);
                        }
                    }
                    Node::Bin(Op::Xor, x, k) => {
                        if let Some(kv) = self.is_const(k) {
                            let nk = self.cst(w, y ^ kv);
                            return self.eq(x, nk);
                        }
                        if y == 0 {
                            return self.eq(x, k);
                        }
                    }
                    Node::Bin(Op::Sub, x, k) if y == 0 => return self.eq(x, k),
                    Node::Bin(Op::Or, x, k) if y == 0 => {
                        let z = self.cst(w, 0);
                        let p1 = self.eq(x, z);
                        let p2 = self.eq(k, z);
                        return self.and(p1, p2);
                    }
                    Node::SExt(x) => {
                        let xw = self.w(x);
                        let t = y & mask(xw);
                        if (sx(t, xw) as u128) & mask(w) == y {
                            let k = self.cst(xw, t);
                            return self.eq(x, k);
                        }
                        return FALSE;
                    }
                    Node::Ite(c, x, z) => {
                        // one constant branch that differs
                        if let Some(xv) = self.is_const(x) {
                            let r = self.eq(z, b);
                            if xv == y {
                                return self.or(c, r);
                            }
                            let nc = self.not(c);
                            return self.and(nc, r);
                        }
                        if let Some(zv) = self.is_const(z) {
                            let r = self.eq(x, b);
                            let nc = self.not(c);
                            if zv == y {
                                return self.or(nc, r);
                            }
                            return self.and(c, r);
                        }
                    }
                    _ => {}
                }
            } else if let (Some((h1, l1)), Some((h2, l2))) = (self.split(a), self.split(b)) {
                if self.w(l1) == self.w(l2) {
                    let x = self.eq(h1, h2);
                    let y = self.eq(l1, l2);
                    return self.and(x, y);
                }
            }
        }
        let (a, b) = if p == Pred::Eq && cb.is_none() && a > b {
            (b, a)
        } else {
            (a, b)
        };
        self.intern(Node::Cmp(p, a, b), 1)
    }
    pub fn zext(&mut self, w: u16, a: E) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        assert!(w > aw);
        match self.node(a) {
            Node::Const(v) => self.cst(w, v),
            Node::ZExt(x) => self.zext(w, x),
            Node::Table(t, x) if w <= 64 => self.map_table(t, x, aw, w, &|v| v),
            Node::Ite(..) if self.leaves(a) > 0 && self.leaves(a) <= 256 => {
                self.map_leaves(a, w, &mut |v| v)
            }
            _ => self.intern(Node::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, w: u16, a: E) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.node(a) {
            Node::Const(v) => self.cst(w, sx(v, aw) as u128),
            Node::ZExt(x) => self.zext(w, x),
            Node::Table(t, x) if w <= 64 => {
                self.map_table(t, x, aw, w, &|v| sx(v, aw) as u128 & mask(w))
            }
            Node::Ite(..) if self.leaves(a) > 0 && self.leaves(a) <= 256 => {
                self.map_leaves(a, w, &mut |v| sx(v, aw) as u128 & mask(w))
            }
            _ => {
                if aw == 1 {
                    let t = self.cst(w, mask(w));
                    let f = self.cst(w, 0);
                    return self.ite(a, t, f);
                }
                self.intern(Node::SExt(a), w)
            }
        }
    }
    pub fn extract(&mut self, lo: u16, n: u16, a: E) -> E {
        let aw = self.w(a);
        if lo == 0 && n == aw {
            return a;
        }
        assert!(lo + n <= aw, "extract {lo}+{n} of {aw}");
        match self.node(a) {
            Node::Const(v) => self.cst(n, v >> lo),
            Node::Extract(l2, x) => self.extract(lo + l2, n, x),
            Node::Table(t, x) => self.map_table(t, x, aw, n, &|v| (v >> lo) & mask(n)),
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(lo - lw, n, h)
                } else if lo + n <= lw {
                    self.extract(lo, n, l)
                } else {
                    let x = self.extract(0, lo + n - lw, h);
                    let y = self.extract(lo, lw - lo, l);
                    self.concat(x, y)
                }
            }
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.cst(n, 0)
                } else if lo + n <= xw {
                    self.extract(lo, n, x)
                } else {
                    let y = self.extract(lo, xw - lo, x);
                    self.zext(n, y)
                }
            }
            Node::SExt(x) if lo + n <= self.w(x) => self.extract(lo, n, x),
            Node::Ite(c, x, y) => {
                if self.leaves(a) > 0 && self.leaves(a) <= 256 {
                    return self.map_leaves(a, n, &mut |v| (v >> lo) & mask(n));
                }
                let x = self.extract(lo, n, x);
                let y = self.extract(lo, n, y);
                self.ite(c, x, y)
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let x = self.extract(lo, n, x);
                let y = self.extract(lo, n, y);
                self.bin(op, x, y)
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => {
                let x = self.extract(lo, n, x);
                let y = self.extract(lo, n, y);
                self.bin(op, x, y)
            }
            _ => self.intern(Node::Extract(lo, a), n),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        let lw = self.w(l);
        match (self.node(h), self.node(l)) {
            (Node::Const(x), Node::Const(y)) => self.cst(w, (x << lw) | y),
            (Node::Const(0), _) => self.zext(w, l),
            (Node::Extract(a, x), Node::Extract(b, y)) if x == y && a == b + lw => {
                self.extract(b, w, x)
            }
            (Node::Extract(a, x), _) if x == l && a == lw => self.extract(0, w, x),
            (Node::ZExt(x), _) => {
                let c = self.concat(x, l);
                self.zext(w, c)
            }
            _ => self.intern(Node::Concat(h, l), w),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        match self.is_const(c) {
            Some(0) => return b,
            Some(_) => return a,
            None => {}
        }
        if let Node::Bin(Op::Xor, x, t) = self.node(c) {
            if t == TRUE {
                return self.ite(x, b, a);
            }
        }
        if self.w(a) == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (_, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        let a = match self.node(a) {
            Node::Ite(c2, x, _) if c2 == c => x,
            _ => a,
        };
        let b = match self.node(b) {
            Node::Ite(c2, _, y) if c2 == c => y,
            _ => b,
        };
        if a == b {
            return a;
        }
        self.intern(Node::Ite(c, a, b), self.w(a))
    }

    /// evaluate under an assignment (missing variables are 0)
    pub fn eval(&mut self, e: E, asg: &[u8]) -> u128 {
        self.epoch += 1;
        self.ev(e, asg)
    }
    fn ev(&mut self, e: E, asg: &[u8]) -> u128 {
        let i = e as usize;
        if self.memo_ep[i] == self.epoch {
            return self.memo_val[i];
        }
        let w = self.nodes[i].w;
        let v = match self.nodes[i].node {
            Node::Const(v) => return v,
            Node::Var(v) => return asg.get(v as usize).copied().unwrap_or(0) as u128,
            Node::Bin(op, a, b) => {
                let x = self.ev(a, asg);
                let y = self.ev(b, asg);
                fold_bin(op, w, x, y)
            }
            Node::Cmp(p, a, b) => {
                let x = self.ev(a, asg);
                let y = self.ev(b, asg);
                fold_cmp(p, self.w(a), x, y) as u128
            }
            Node::ZExt(a) => self.ev(a, asg),
            Node::Table(t, a) => {
                let x = self.ev(a, asg);
                self.tables[t as usize][x as usize & 255] as u128
            }
            Node::SExt(a) => sx(self.ev(a, asg), self.w(a)) as u128 & mask(w),
            Node::Extract(lo, a) => (self.ev(a, asg) >> lo) & mask(w),
            Node::Concat(h, l) => {
                let x = self.ev(h, asg);
                let y = self.ev(l, asg);
                (x << self.w(l)) | y
            }
            Node::Ite(c, a, b) => {
                if self.ev(c, asg) != 0 {
                    self.ev(a, asg)
                } else {
                    self.ev(b, asg)
                }
            }
        };
        self.memo_ep[i] = self.epoch;
        self.memo_val[i] = v;
        v
    }
    pub fn single_var(&self, e: E) -> Option<u32> {
        let s = self.sup(e);
        let mut r = None;
        for k in 0..VW {
            let x = s[k];
            if x == 0 {
                continue;
            }
            if r.is_some() || x & (x - 1) != 0 {
                return None;
            }
            r = Some(k as u32 * 64 + x.trailing_zeros());
        }
        r
    }
    /// for a 1-bit expression over a single variable: the set of byte values making it true
    pub fn truth_mask(&mut self, e: E, var: u32) -> [u64; 4] {
        if let Some(m) = self.masks.get(&e) {
            return *m;
        }
        let mut asg = vec![0u8; var as usize + 1];
        let mut m = [0u64; 4];
        for v in 0..256usize {
            asg[var as usize] = v as u8;
            if self.eval(e, &asg) != 0 {
                m[v / 64] |= 1 << (v % 64);
            }
        }
        self.masks.insert(e, m);
        m
    }
    pub fn vars_of(&self, e: E) -> Vec<u32> {
        let s = self.sup(e);
        let mut r = vec![];
        for k in 0..VW {
            let mut x = s[k];
            while x != 0 {
                r.push(k as u32 * 64 + x.trailing_zeros());
                x &= x - 1;
            }
        }
        r
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let s = |x| self.show(x, depth - 1);
        match self.node(e) {
            Node::Const(v) => format!("{v}"),
            Node::Var(v) => format!("v{v}"),
            Node::Bin(o, a, b) => format!("({o:?} {} {})", s(a), s(b)),
            Node::Cmp(o, a, b) => format!("({o:?} {} {})", s(a), s(b)),
            Node::Table(t, a) => format!("(tab{t}:{} {})", self.w(e), s(a)),
            Node::ZExt(a) => format!("(zx{} {})", self.w(e), s(a)),
            Node::SExt(a) => format!("(sx{} {})", self.w(e), s(a)),
            Node::Extract(l, a) => format!("(ex{}+{} {})", l, self.w(e), s(a)),
            Node::Concat(a, b) => format!("(cat {} {})", s(a), s(b)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    /// every simplification must agree with the plain semantics of the operation
    #[test]
    fn simplifier_agrees_with_semantics() {
        let mut seed = 0x1234_5678_9abc_def1u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        for round in 0..400 {
            let mut c = Ctx::new();
            let asgs: Vec<Vec<u8>> = (0..8).map(|_| (0..3).map(|_| { let r = rnd(); if r & 256 == 0 { r as u8 } else { (r & 3) as u8 } }).collect()).collect();
            // pool of (expr, expected values)
            let mut pool: Vec<(E, Vec<u128>)> = vec![];
            for v in 0..3u32 {
                let e = c.var(v);
                pool.push((e, asgs.iter().map(|a| a[v as usize] as u128).collect()));
            }
            for k in [0u128, 1, 2, 0x80, 0xff, 7] {
                for w in [1u16, 8, 16, 32, 64] {
                    let e = c.cst(w, k);
                    pool.push((e, vec![k & mask(w); 8]));
                }
            }
            for _ in 0..300 {
                let pick = |pool: &Vec<(E, Vec<u128>)>, r: u64| pool[(r as usize >> 8) % pool.len()].clone();
                let (a, va) = pick(&pool, rnd());
                let w = c.w(a);
                let same: Vec<_> = pool.iter().filter(|x| c.w(x.0) == w).cloned().collect();
                let (b, vb) = same[rnd() as usize % same.len()].clone();
                let r = rnd();
                let (e, v): (E, Vec<u128>) = match r % 9 {
                    0 | 1 => {
                        let op = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor][(r >> 10) as usize % 13];
                        (c.bin(op, a, b), va.iter().zip(&vb).map(|(x, y)| fold_bin(op, w, *x, *y)).collect())
                    }
                    2 | 3 => {
                        let p = [Pred::Eq, Pred::Ult, Pred::Ule, Pred::Slt, Pred::Sle][(r >> 10) as usize % 5];
                        (c.cmp(p, a, b), va.iter().zip(&vb).map(|(x, y)| fold_cmp(p, w, *x, *y) as u128).collect())
                    }
                    4 => {
                        let nw = [8u16, 16, 32, 64, 128][(r >> 10) as usize % 5];
                        if nw < w { continue; }
                        (c.zext(nw, a), va)
                    }
                    5 => {
                        let nw = [8u16, 16, 32, 64, 128][(r >> 10) as usize % 5];
                        if nw < w { continue; }
                        (c.sext(nw, a), va.iter().map(|x| sx(*x, w) as u128 & mask(nw)).collect())
                    }
                    6 => {
                        let lo = (r >> 10) as u16 % w;
                        let n = 1 + (r >> 30) as u16 % (w - lo);
                        (c.extract(lo, n, a), va.iter().map(|x| (x >> lo) & mask(n)).collect())
                    }
                    7 => {
                        if w > 64 { continue; }
                        (c.concat(a, b), va.iter().zip(&vb).map(|(x, y)| (x << w) | y).collect())
                    }
                    _ => {
                        let bs: Vec<_> = pool.iter().filter(|x| c.w(x.0) == 1).cloned().collect();
                        let (k, vk) = bs[rnd() as usize % bs.len()].clone();
                        (c.ite(k, a, b), (0..8).map(|i| if vk[i] != 0 { va[i] } else { vb[i] }).collect())
                    }
                };
                for i in 0..8 {
                    let got = c.eval(e, &asgs[i]);
                    assert_eq!(got, v[i], "round {round} {} under {:?}", c.show(e, 6), asgs[i]);
                }
                let e = if r >> 60 < 4 { if let Some(x) = c.single_var(e) { c.collapse(e, x) } else { e } } else { e };
                for i in 0..8 {
                    assert_eq!(c.eval(e, &asgs[i]), v[i]);
                }
                pool.push((e, v));
            }
        }
    }
}
