//! Hash-consed bit-vector expressions (width 1..=128) with light simplification,
//! interval and support information.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    /// Const: value.  Var: index | domain_hi << 32.  Extract: low bit.
    pub val: u128,
}

pub type E = u32;

/// Bit of the support set used for every variable with index >= 127.
pub const SAT_BIT: u32 = 127;
pub fn vbit(i: u32) -> u128 {
    1u128 << i.min(SAT_BIT)
}

pub struct Arena {
    pub n: Vec<Node>,
    pub supp: Vec<u128>,
    pub lo: Vec<u64>,
    pub hi: Vec<u64>,
    pub size: Vec<u32>,
    map: FxMap<Node, E>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    cur: u32,
    tables: FxMap<E, [u64; 4]>,
    hard: FxMap<E, bool>,
    sr: FxMap<E, (i128, i128)>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    ((v << (128 - w)) as i128) >> (128 - w)
}

pub fn fold(op: Op, w: u32, a: u128, b: u128, c: u128, val: u128, aw: u32, bw: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Const => val,
        Op::Var => unreachable!(),
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            if b == 0 {
                if sext(a, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
            }
        }
        Op::SRem => {
            if b == 0 {
                a
            } else {
                (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let k = if b >= w as u128 { 127.min(w - 1) } else { b as u32 };
            ((s >> k) as u128) & m
        }
        Op::Concat => (a << bw) | b,
        Op::Extract => (a >> (val as u32)) & m,
        Op::ZExt => a,
        Op::SExt => (sext(a, aw) as u128) & m,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: vec![],
            supp: vec![],
            lo: vec![],
            hi: vec![],
            size: vec![],
            map: FxMap::default(),
            stamp: vec![],
            memo: vec![],
            cur: 0,
            tables: FxMap::default(),
            hard: FxMap::default(),
            sr: FxMap::default(),
        };
        a.konst(1, 0); // id 0 is reserved ("not symbolic")
        a
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w as u32
    }
    fn mk(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let id = self.n.len() as u32;
        let (supp, size) = match nd.op {
            Op::Const => (0, 1),
            Op::Var => (vbit((nd.val & 0xffff_ffff) as u32), 1),
            _ => {
                let ar = arity(nd.op);
                let mut s = self.supp[nd.a as usize];
                let mut z = self.size[nd.a as usize].saturating_add(1);
                if ar > 1 {
                    s |= self.supp[nd.b as usize];
                    z = z.saturating_add(self.size[nd.b as usize]);
                }
                if ar > 2 {
                    s |= self.supp[nd.c as usize];
                    z = z.saturating_add(self.size[nd.c as usize]);
                }
                (s, z)
            }
        };
        let (lo, hi) = self.range(&nd);
        self.n.push(nd);
        self.supp.push(supp);
        self.size.push(size);
        self.lo.push(lo);
        self.hi.push(hi);
        self.stamp.push(0);
        self.memo.push(0);
        self.map.insert(nd, id);
        id
    }
    fn range(&self, nd: &Node) -> (u64, u64) {
        let w = nd.w as u32;
        let full = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
        let r = |e: E| (self.lo[e as usize], self.hi[e as usize]);
        if w > 64 {
            // u64::MAX: not known to fit 64 bits
            let un = (0, u64::MAX);
            let two = |f: fn(u64, u64) -> Option<u64>| {
                let ((l1, h1), (l2, h2)) = (r(nd.a), r(nd.b));
                if h1 == u64::MAX || h2 == u64::MAX {
                    return un;
                }
                match f(h1, h2) {
                    Some(h) if h < u64::MAX => (f(l1, l2).unwrap(), h),
                    _ => un,
                }
            };
            return match nd.op {
                Op::Const if nd.val < u64::MAX as u128 => (nd.val as u64, nd.val as u64),
                Op::ZExt => r(nd.a),
                Op::Add => two(u64::checked_add),
                Op::Mul => two(u64::checked_mul),
                _ => un,
            };
        }
        match nd.op {
            Op::Const => (nd.val as u64, nd.val as u64),
            Op::Var => (0, (nd.val >> 32) as u64),
            Op::ZExt => r(nd.a),
            Op::SExt => {
                let aw = self.w(nd.a);
                let (l, h) = r(nd.a);
                if h < (1u64 << (aw - 1)) {
                    (l, h)
                } else {
                    (0, full)
                }
            }
            Op::Extract if nd.val == 0 && self.w(nd.a) <= 64 => {
                let (l, h) = r(nd.a);
                if h <= full {
                    (l, h)
                } else {
                    (0, full)
                }
            }
            Op::Add => {
                let (l1, h1) = r(nd.a);
                let (l2, h2) = r(nd.b);
                match (l1.checked_add(l2), h1.checked_add(h2)) {
                    (Some(l), Some(h)) if h <= full => (l, h),
                    _ => {
                        // both ends wrap (adding a "negative" constant)
                        let l = l1 as u128 + l2 as u128;
                        let h = h1 as u128 + h2 as u128;
                        let md = full as u128 + 1;
                        if l >= md && h < 2 * md {
                            ((l - md) as u64, (h - md) as u64)
                        } else {
                            (0, full)
                        }
                    }
                }
            }
            Op::Sub => {
                let (l1, h1) = r(nd.a);
                let (l2, h2) = r(nd.b);
                if l1 >= h2 {
                    (l1 - h2, h1 - l2)
                } else {
                    (0, full)
                }
            }
            Op::Mul => {
                let (l1, h1) = r(nd.a);
                let (l2, h2) = r(nd.b);
                match h1.checked_mul(h2) {
                    Some(h) if h <= full => (l1 * l2, h),
                    _ => (0, full),
                }
            }
            Op::And => {
                let (_, h1) = r(nd.a);
                let (_, h2) = r(nd.b);
                (0, h1.min(h2))
            }
            Op::Or | Op::Xor => {
                let (_, h1) = r(nd.a);
                let (_, h2) = r(nd.b);
                let h = h1 | h2;
                let b = 64 - h.leading_zeros();
                (0, if b >= 64 { u64::MAX } else { (1u64 << b) - 1 }.min(full))
            }
            Op::LShr => {
                let (l, h) = r(nd.a);
                if let Some(k) = self.cv(nd.b) {
                    if k < 64 {
                        return (l >> k, h >> k);
                    }
                }
                (0, h)
            }
            Op::Shl => {
                let (l, h) = r(nd.a);
                if let Some(k) = self.cv(nd.b) {
                    if k < 64 && (h as u128) << k <= full as u128 {
                        return (l << k, h << k);
                    }
                }
                (0, full)
            }
            Op::UDiv => {
                let (l, h) = r(nd.a);
                if let Some(k) = self.cv(nd.b) {
                    if k > 0 {
                        return (l / k as u64, h / k as u64);
                    }
                }
                (0, full)
            }
            Op::URem => {
                if let Some(k) = self.cv(nd.b) {
                    if k > 0 {
                        return (0, (k as u64 - 1).min(r(nd.a).1));
                    }
                }
                (0, full)
            }
            Op::Ite => {
                let (l1, h1) = r(nd.b);
                let (l2, h2) = r(nd.c);
                (l1.min(l2), h1.max(h2))
            }
            Op::Concat => {
                let bw = self.w(nd.b);
                let (l1, h1) = r(nd.a);
                let (l2, h2) = r(nd.b);
                ((l1 << bw) | l2, (h1 << bw) | h2)
            }
            _ => (0, full),
        }
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        self.mk(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: 0, val: v & mask(w) })
    }
    /// Variable number `idx` with values 0..=hi.
    pub fn var(&mut self, idx: u32, hi: u64) -> E {
        let w = (64 - hi.leading_zeros()).max(1);
        self.mk(Node { op: Op::Var, w: w as u8, a: 0, b: 0, c: 0, val: idx as u128 | (hi as u128) << 32 })
    }
    pub fn var_idx(&self, e: E) -> u32 {
        (self.n[e as usize].val & 0xffff_ffff) as u32
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.val)
        } else {
            None
        }
    }
    pub fn is_true(&self, e: E) -> bool {
        self.cv(e) == Some(1) && self.w(e) == 1
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E, val: u128) -> E {
        self.mk(Node { op, w: w as u8, a, b, c, val })
    }
    pub fn not(&mut self, e: E) -> E {
        debug_assert_eq!(self.w(e), 1);
        let n = self.n[e as usize];
        match n.op {
            Op::Const => self.konst(1, n.val ^ 1),
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            Op::Xor if self.cv(n.b) == Some(1) => n.a,
            _ => {
                let one = self.konst(1, 1);
                self.raw(Op::Xor, 1, e, one, 0, 0)
            }
        }
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        let n = self.n[e as usize];
        match n.op {
            Op::Const => self.konst(w, n.val),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let b = self.zext(n.b, w);
                let c = self.zext(n.c, w);
                self.ite(n.a, b, c)
            }
            _ => self.raw(Op::ZExt, w, e, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        let n = self.n[e as usize];
        match n.op {
            Op::Const => self.konst(w, sext(n.val, ew) as u128),
            Op::ZExt => self.zext(n.a, w),
            _ => {
                if ew <= 64 && self.hi[e as usize] < (1u64 << (ew - 1)) {
                    return self.zext(e, w);
                }
                self.raw(Op::SExt, w, e, 0, 0, 0)
            }
        }
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        if lo == 0 && w == ew {
            return e;
        }
        let n = self.n[e as usize];
        match n.op {
            Op::Const => self.konst(w, n.val >> lo),
            Op::Extract => self.extract(n.a, lo + n.val as u32, w),
            Op::ZExt => {
                let aw = self.w(n.a);
                if lo >= aw {
                    self.konst(w, 0)
                } else if lo + w <= aw {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.zext(n.a, w)
                } else {
                    let x = self.extract(n.a, lo, aw - lo);
                    self.zext(x, w)
                }
            }
            Op::SExt if lo == 0 && w > self.w(n.a) => self.sext(n.a, w),
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            Op::Concat => {
                let bw = self.w(n.b);
                if lo + w <= bw {
                    self.extract(n.b, lo, w)
                } else if lo >= bw {
                    self.extract(n.a, lo - bw, w)
                } else {
                    let l = self.extract(n.b, lo, bw - lo);
                    let h = self.extract(n.a, 0, w - (bw - lo));
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                self.bin(n.op, a, b)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                self.bin(n.op, a, b)
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let b = self.extract(n.b, lo, w);
                    let c = self.extract(n.c, lo, w);
                    return self.ite(n.a, b, c);
                }
                if lo == 0 && self.size[e as usize] < 200 {
                    let b = self.extract(n.b, 0, w);
                    let c = self.extract(n.c, 0, w);
                    return self.ite(n.a, b, c);
                }
                self.raw(Op::Extract, w, e, 0, 0, lo as u128)
            }
            Op::Shl => {
                if let Some(k) = self.cv(n.b) {
                    let k = k as u32;
                    if lo >= k {
                        return self.extract(n.a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(w, 0);
                    }
                }
                self.raw(Op::Extract, w, e, 0, 0, lo as u128)
            }
            Op::LShr => {
                if let Some(k) = self.cv(n.b) {
                    let k = k as u32;
                    if lo + k + w <= ew {
                        return self.extract(n.a, lo + k, w);
                    }
                    if lo + k >= ew {
                        return self.konst(w, 0);
                    }
                }
                self.raw(Op::Extract, w, e, 0, 0, lo as u128)
            }
            _ => self.raw(Op::Extract, w, e, 0, 0, lo as u128),
        }
    }
    /// `a` high bits, `b` low bits.
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = self.w(a) + self.w(b);
        if na.op == Op::Const && nb.op == Op::Const {
            return self.konst(w, na.val << self.w(b) | nb.val);
        }
        if na.op == Op::Const && na.val == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.val == nb.val + nb.w as u128 {
            return self.extract(na.a, nb.val as u32, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract {
            // falls through: different sources
        }
        // concat(extract(x, bw..), x) never occurs; concat(ext(x,hi), x[lo]) where b is the low part of x
        if na.op == Op::Extract && na.val as u32 == self.w(b) && self.w(na.a) > self.w(b) {
            let low = self.extract(na.a, 0, self.w(b));
            if low == b {
                return self.extract(na.a, 0, w);
            }
        }
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        self.raw(Op::Concat, w, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        let w = self.w(a);
        let cn = self.n[c as usize];
        if cn.op == Op::Xor && cn.w == 1 && self.cv(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        // ite(c, ite(c, x, _), b)
        let an = self.n[a as usize];
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let bn = self.n[b as usize];
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Const && nb.op == Op::Const {
            let v = fold(op, rw, na.val, nb.val, 0, 0, w, w);
            return self.konst(rw, v);
        }
        let m = mask(w);
        let ca = self.cv(a);
        let cb = self.cv(b);
        match op {
            Op::Add => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                    // zext(x + k2) + k with x + k2 not wrapping
                    if na.op == Op::ZExt {
                        let i = self.n[na.a as usize];
                        if i.op == Op::Add && i.w <= 64 {
                            if let Some(k2) = self.cv(i.b) {
                                if self.hi[i.a as usize] as u128 + k2 <= mask(i.w as u32) {
                                    let x = self.zext(i.a, w);
                                    let kk = self.konst(w, k.wrapping_add(k2));
                                    if self.cv(kk) == Some(0) {
                                        return x;
                                    }
                                    return self.raw(Op::Add, w, x, kk, 0, 0);
                                }
                            }
                        }
                    }
                } else if na.op == Op::Add && self.cv(na.b).is_some() {
                    let x = self.bin(Op::Add, na.a, b);
                    return self.bin(Op::Add, x, na.b);
                } else if nb.op == Op::Add && self.cv(nb.b).is_some() {
                    let x = self.bin(Op::Add, a, nb.a);
                    return self.bin(Op::Add, x, nb.b);
                }
                if ca.is_none() && cb.is_none() {
                    return self.linear_sum(w, a, b, false);
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    let kk = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, kk);
                }
                // (x + k) - x, (x+k1) - (x+k2)
                let (xa, ka) = self.split_add(a);
                let (xb, kb) = self.split_add(b);
                if xa == xb {
                    return self.konst(w, ka.wrapping_sub(kb));
                }
                if ca.is_none() {
                    return self.linear_sum(w, a, b, true);
                }
            }
            Op::Mul => {
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                match cb {
                    Some(0) => return b,
                    Some(1) => return a,
                    Some(k) if k.is_power_of_two() => {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                    _ => {}
                }
            }
            Op::UDiv | Op::SDiv => {
                if cb == Some(1) {
                    return a;
                }
                if op == Op::UDiv {
                    if let Some(k) = cb {
                        if k.is_power_of_two() {
                            let s = self.konst(w, k.trailing_zeros() as u128);
                            return self.bin(Op::LShr, a, s);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if w <= 64 && k > self.hi[a as usize] as u128 {
                        return a;
                    }
                }
            }
            Op::SRem => {}
            Op::And => {
                if a == b {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if w <= 64 && k & (k + 1) == 0 && self.hi[a as usize] as u128 <= k {
                        return a;
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.konst(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if k & (k + 1) == 0 {
                        // low mask
                        let bits = 128 - k.leading_zeros();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    if na.op == Op::ZExt {
                        let aw = self.w(na.a);
                        let kk = self.konst(aw, k & mask(aw));
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    let nb_ = self.not(b);
                    if nb_ == a {
                        return self.konst(1, 0);
                    }
                }
                if b < a && ca.is_none() && cb.is_none() {
                    return self.raw(op, w, b, a, 0, 0);
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                    // zext(x) | const above x
                    if na.op == Op::ZExt {
                        let aw = self.w(na.a);
                        if k & mask(aw) == 0 {
                            let hi = self.konst(w - aw, k >> aw);
                            return self.raw(Op::Concat, w, hi, na.a, 0, 0);
                        }
                    }
                }
                // (x << k) | zext(y), y narrower than k  =>  concat
                if cb.is_none() {
                    for (p, q) in [(na, b), (nb, a)] {
                        if p.op == Op::Shl {
                            if let Some(k) = self.cv(p.b) {
                                let k = k as u32;
                                let qn = self.n[q as usize];
                                if k > 0 && k < w && qn.op == Op::ZExt && self.w(qn.a) <= k {
                                    let h = self.extract(p.a, 0, w - k);
                                    let l = self.zext(qn.a, k);
                                    return self.concat(h, l);
                                }
                            }
                        }
                    }
                }
                if w == 1 {
                    let nb_ = self.not(b);
                    if nb_ == a {
                        return self.konst(1, 1);
                    }
                }
                if b < a && ca.is_none() && cb.is_none() {
                    return self.raw(op, w, b, a, 0, 0);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if na.op == Op::ZExt {
                        let aw = self.w(na.a);
                        if k & !mask(aw) == 0 {
                            let kk = self.konst(aw, k);
                            let x = self.bin(Op::Xor, na.a, kk);
                            return self.zext(x, w);
                        }
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 && op != Op::AShr {
                        return self.konst(w, 0);
                    }
                    if ca == Some(0) {
                        return a;
                    }
                    if op == Op::LShr {
                        if k < w as u128 {
                            let x = self.extract(a, k as u32, w - k as u32);
                            return self.zext(x, w);
                        }
                    }
                    if op == Op::AShr && w <= 64 && self.hi[a as usize] < (1u64 << (w - 1)) {
                        return self.bin(Op::LShr, a, b);
                    }
                    if op == Op::Shl && na.op == Op::Shl {
                        if let Some(k2) = self.cv(na.b) {
                            if k + k2 < w as u128 {
                                let kk = self.konst(w, k + k2);
                                return self.bin(Op::Shl, na.a, kk);
                            }
                        }
                    }
                }
            }
            Op::Eq | Op::Ult | Op::Ule if w > 64 && self.hi[a as usize] < u64::MAX && self.hi[b as usize] < u64::MAX => {
                let x = self.extract(a, 0, 64);
                let y = self.extract(b, 0, 64);
                return self.bin(op, x, y);
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if ca.is_some() {
                    return self.bin(op, b, a);
                }
                if w <= 64 {
                    let (l1, h1, l2, h2) = (self.lo[a as usize], self.hi[a as usize], self.lo[b as usize], self.hi[b as usize]);
                    if h1 < l2 || h2 < l1 {
                        return self.konst(1, 0);
                    }
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let aw = self.w(na.a);
                            if k > mask(aw) {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(aw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let aw = self.w(na.a);
                            let t = k & mask(aw);
                            if (sext(t, aw) as u128) & m != k {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(aw, t);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.konst(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.konst(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Concat => {
                            let bw = self.w(na.b);
                            let aw = self.w(na.a);
                            let k1 = self.konst(aw, k >> bw);
                            let k2 = self.konst(bw, k);
                            let x = self.bin(Op::Eq, na.a, k1);
                            let y = self.bin(Op::Eq, na.b, k2);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (vb, vc) = (self.cv(na.b), self.cv(na.c));
                            if vb.is_some() || vc.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::Shl => {
                            if let Some(s) = self.cv(na.b) {
                                let s = s as u32;
                                if k & mask(s) != 0 {
                                    return self.konst(1, 0);
                                }
                                let x = self.extract(na.a, 0, w - s);
                                let kk = self.konst(w - s, k >> s);
                                return self.bin(Op::Eq, x, kk);
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == Op::ZExt && nb.op == Op::ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let mw = wa.max(wb);
                        let x = self.zext(na.a, mw);
                        let y = self.zext(nb.a, mw);
                        return self.bin(Op::Eq, x, y);
                    }
                    let (xa, ka) = self.split_add(a);
                    let (xb, kb) = self.split_add(b);
                    if xa == xb {
                        return self.konst(1, (ka == kb) as u128);
                    }
                }
                if let Some((x, y)) = self.narrow(a, b) {
                    return self.bin(op, x, y);
                }
                if cb.is_none() {
                    if b < a {
                        return self.raw(op, 1, b, a, 0, 0);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.konst(1, (op == Op::Ule) as u128);
                }
                if w <= 64 {
                    let (l1, h1, l2, h2) = (self.lo[a as usize], self.hi[a as usize], self.lo[b as usize], self.hi[b as usize]);
                    if op == Op::Ult {
                        if h1 < l2 {
                            return self.konst(1, 1);
                        }
                        if l1 >= h2 {
                            return self.konst(1, 0);
                        }
                    } else {
                        if h1 <= l2 {
                            return self.konst(1, 1);
                        }
                        if l1 > h2 {
                            return self.konst(1, 0);
                        }
                    }
                }
                if w <= 64 {
                    // same order as signed numbers if both are known to be small
                    let (x, y) = (self.srange(a), self.srange(b));
                    if x.0 >= 0 && y.0 >= 0 {
                        if let Some((x, y)) = self.narrow(a, b) {
                            return self.bin(op, x, y);
                        }
                    }
                }
                let za = na.op == Op::ZExt;
                let zb = nb.op == Op::ZExt;
                if (za || ca.is_some()) && (zb || cb.is_some()) {
                    let wa = if za { self.w(na.a) } else { (128 - na.val.leading_zeros()).max(1) };
                    let wb = if zb { self.w(nb.a) } else { (128 - nb.val.leading_zeros()).max(1) };
                    let mw = wa.max(wb);
                    if mw < w {
                        let x = if za { self.zext(na.a, mw) } else { self.konst(mw, na.val) };
                        let y = if zb { self.zext(nb.a, mw) } else { self.konst(mw, nb.val) };
                        return self.bin(op, x, y);
                    }
                }
                if let Some(k) = cb {
                    if op == Op::Ult && k == 1 {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if op == Op::Ule && k == 0 {
                        return self.bin(Op::Eq, a, b);
                    }
                }
                if let Some(k) = ca {
                    if op == Op::Ult && k == 0 {
                        let e = self.bin(Op::Eq, b, a);
                        return self.not(e);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                if w <= 64 {
                    let half = 1u64 << (w - 1);
                    if self.hi[a as usize] < half && self.hi[b as usize] < half {
                        return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                    }
                    if self.hi[a as usize] < half && self.lo[b as usize] >= half {
                        return self.konst(1, 0);
                    }
                    if self.lo[a as usize] >= half && self.hi[b as usize] < half {
                        return self.konst(1, 1);
                    }
                    let (x, y) = (self.srange(a), self.srange(b));
                    let (t, f) = if op == Op::Slt { (x.1 < y.0, x.0 >= y.1) } else { (x.1 <= y.0, x.0 > y.1) };
                    if t || f {
                        return self.konst(1, t as u128);
                    }
                    if let Some((x, y)) = self.narrow(a, b) {
                        return self.bin(op, x, y);
                    }
                }
            }
            _ => {}
        }
        self.raw(op, rw, a, b, 0, 0)
    }
    /// Bounds of `e` read as a signed number (w <= 64).
    pub fn srange(&mut self, e: E) -> (i128, i128) {
        let w = self.w(e);
        let half = 1i128 << (w - 1);
        let full = (-half, half - 1);
        if w > 64 {
            return (i128::MIN / 4, i128::MAX / 4);
        }
        let n = self.n[e as usize];
        if n.op == Op::Const {
            let v = sext(n.val, w);
            return (v, v);
        }
        let (lo, hi) = (self.lo[e as usize] as i128, self.hi[e as usize] as i128);
        if hi < half {
            return (lo, hi);
        }
        if let Some(r) = self.sr.get(&e) {
            return *r;
        }
        let r = match n.op {
            Op::Add | Op::Sub | Op::Mul => {
                let m = mask(w);
                let (mut out, mut c) = (vec![], 0u128);
                self.linear(e, 1, m, &mut out, &mut c);
                let (mut l, mut h) = (sext(c, w), sext(c, w));
                for (t, k) in out {
                    let k = sext(k, w);
                    let (tl, th) = if t == e { full } else { self.srange(t) };
                    if k.abs() >= 1 << 62 {
                        l = i128::MIN / 2;
                        break;
                    }
                    let (a, b) = (tl * k, th * k);
                    l += a.min(b);
                    h += a.max(b);
                }
                if l >= -half && h < half {
                    (l, h)
                } else {
                    full
                }
            }
            Op::Ite => {
                let (a, b) = (self.srange(n.b), self.srange(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::SExt => self.srange(n.a),
            _ => full,
        };
        self.sr.insert(e, r);
        r
    }
    /// `a` and `b` at a smaller width with the same signed values, if that removes wide sums.
    fn narrow(&mut self, a: E, b: E) -> Option<(E, E)> {
        let w = self.w(a);
        if w < 16 || w > 64 {
            return None;
        }
        let sum = |n: &Node, s: &Arena| match n.op {
            Op::Sub | Op::Mul => true,
            Op::Add => s.cv(n.b).is_none() || matches!(s.n[n.a as usize].op, Op::Add | Op::Sub | Op::Mul),
            _ => false,
        };
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if !sum(&na, self) && !sum(&nb, self) {
            return None;
        }
        let (x, y) = (self.srange(a), self.srange(b));
        let (l, h) = (x.0.min(y.0), x.1.max(y.1));
        let mut k = 8;
        while k < w && (l < -(1i128 << (k - 1)) || h >= 1i128 << (k - 1)) {
            k += 4;
        }
        if k >= w {
            return None;
        }
        Some((self.extract(a, 0, k), self.extract(b, 0, k)))
    }
    fn linear(&self, e: E, k: u128, m: u128, out: &mut Vec<(E, u128)>, c: &mut u128) {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => *c = c.wrapping_add(n.val.wrapping_mul(k)) & m,
            Op::Add if out.len() < 16 => {
                self.linear(n.a, k, m, out, c);
                self.linear(n.b, k, m, out, c);
            }
            Op::Sub if out.len() < 16 => {
                self.linear(n.a, k, m, out, c);
                self.linear(n.b, k.wrapping_neg() & m, m, out, c);
            }
            Op::Mul if self.cv(n.b).is_some() => {
                let kk = self.cv(n.b).unwrap();
                self.linear(n.a, k.wrapping_mul(kk) & m, m, out, c);
            }
            _ => match out.iter_mut().find(|x| x.0 == e) {
                Some(x) => x.1 = x.1.wrapping_add(k) & m,
                None => out.push((e, k & m)),
            },
        }
    }
    /// `a + b` or `a - b` as a canonical sum of products with constants.
    fn linear_sum(&mut self, w: u32, a: E, b: E, sub: bool) -> E {
        let m = mask(w);
        let (mut out, mut c) = (vec![], 0u128);
        self.linear(a, 1, m, &mut out, &mut c);
        self.linear(b, if sub { m } else { 1 }, m, &mut out, &mut c);
        out.retain(|x| x.1 != 0);
        // negative terms last
        out.sort_unstable_by_key(|x| (x.1 >> (w - 1) & 1, x.0));
        let mut r: Option<E> = None;
        for (t, k) in out {
            let neg = k >> (w - 1) & 1 == 1 && (r.is_some() || k == m);
            let kk = if neg { k.wrapping_neg() & m } else { k };
            let kc = self.konst(w, kk);
            let x = if kk == 1 { t } else { self.bin(Op::Mul, t, kc) };
            r = Some(match r {
                None if neg => {
                    let z = self.konst(w, 0);
                    self.raw(Op::Sub, w, z, x, 0, 0)
                }
                None => x,
                Some(p) if neg => self.raw(Op::Sub, w, p, x, 0, 0),
                Some(p) => {
                    let (p, x) = if x < p { (x, p) } else { (p, x) };
                    self.raw(Op::Add, w, p, x, 0, 0)
                }
            });
        }
        match r {
            None => self.konst(w, c),
            Some(r) => {
                let kc = self.konst(w, c);
                self.bin(Op::Add, r, kc)
            }
        }
    }
    fn split_add(&self, e: E) -> (E, u128) {
        let n = &self.n[e as usize];
        if n.op == Op::Add {
            if let Some(k) = self.cv(n.b) {
                return (n.a, k);
            }
        }
        (e, 0)
    }
    /// Value of `e` under `model` (indexed by variable number).
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            self.stamp.iter_mut().for_each(|x| *x = 0);
            self.cur = 1;
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.n[e as usize];
        match n.op {
            Op::Const => return n.val,
            Op::Var => return model.get((n.val & 0xffff_ffff) as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.stamp[e as usize] == self.cur {
            return self.memo[e as usize];
        }
        let ar = arity(n.op);
        let a = self.ev(n.a, model);
        let v = if n.op == Op::Ite {
            if a != 0 {
                self.ev(n.b, model)
            } else {
                self.ev(n.c, model)
            }
        } else {
            let b = if ar > 1 { self.ev(n.b, model) } else { 0 };
            let aw = self.w(n.a);
            let bw = if ar > 1 { self.w(n.b) } else { 0 };
            fold(n.op, n.w as u32, a, b, 0, n.val, aw, bw)
        };
        self.stamp[e as usize] = self.cur;
        self.memo[e as usize] = v;
        v
    }
    /// Truth table over the single variable `vi` (domain 0..=hi, hi <= 255).
    pub fn table(&mut self, e: E, vi: u32, hi: u64) -> [u64; 4] {
        if let Some(t) = self.tables.get(&e) {
            return *t;
        }
        let mut t = [0u64; 4];
        let mut model = vec![0u64; vi as usize + 1];
        for x in 0..=hi {
            model[vi as usize] = x;
            if self.eval(e, &model) != 0 {
                t[(x >> 6) as usize] |= 1 << (x & 63);
            }
        }
        self.tables.insert(e, t);
        t
    }
    /// Contains a symbolic multiplication or division (slow to bit-blast).
    pub fn is_hard(&mut self, e: E) -> bool {
        if self.supp[e as usize] == 0 {
            return false;
        }
        if let Some(h) = self.hard.get(&e) {
            return *h;
        }
        let n = self.n[e as usize];
        let r = match n.op {
            Op::Var | Op::Const => false,
            Op::Mul | Op::UDiv | Op::SDiv | Op::URem | Op::SRem if n.w > 8 => true,
            op => {
                let ar = arity(op);
                self.is_hard(n.a) || (ar > 1 && self.is_hard(n.b)) || (ar > 2 && self.is_hard(n.c))
            }
        };
        self.hard.insert(e, r);
        r
    }
    /// The variable nodes `e` depends on.
    pub fn vars_of(&self, e: E, out: &mut Vec<E>) {
        let mut seen: FxMap<E, ()> = FxMap::default();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if self.supp[x as usize] == 0 || seen.insert(x, ()).is_some() {
                continue;
            }
            let n = &self.n[x as usize];
            if n.op == Op::Var {
                if !out.contains(&x) {
                    out.push(x);
                }
                continue;
            }
            let ar = arity(n.op);
            st.push(n.a);
            if ar > 1 {
                st.push(n.b);
            }
            if ar > 2 {
                st.push(n.c);
            }
        }
    }
}

pub fn arity(op: Op) -> u32 {
    match op {
        Op::Const | Op::Var => 0,
        Op::Extract | Op::ZExt | Op::SExt => 1,
        Op::Ite => 3,
        _ => 2,
    }
}

#[cfg(test)]
mod test {
    use super::*;

    struct R(u64);
    impl R {
        fn n(&mut self, k: u64) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            self.0 % k
        }
    }

    /// Simplified expressions evaluate to what their unsimplified definition gives.
    #[test]
    fn simplifier() {
        use Op::*;
        let mut r = R(0x1234_5678_9abc_def1);
        for round in 0..3000 {
            let mut ar = Arena::new();
            let nv = 4;
            let his: Vec<u64> = (0..nv).map(|_| [1, 3, 9, 25, 94, 255][r.n(6) as usize]).collect();
            let models: Vec<Vec<u64>> = (0..6).map(|_| his.iter().map(|h| r.n(h + 1)).collect()).collect();
            // pool of (expression, values)
            let mut pool: Vec<(E, Vec<u128>)> = vec![];
            for (i, h) in his.iter().enumerate() {
                let v = ar.var(i as u32, *h);
                let w = ar.w(v);
                let mut vals: Vec<u128> = models.iter().map(|m| m[i] as u128).collect();
                let mut e = v;
                if w < 8 {
                    e = ar.zext(e, 8);
                }
                if r.n(2) == 0 {
                    let k = ar.konst(8, 48);
                    e = ar.bin(Add, e, k);
                    vals = vals.iter().map(|x| (x + 48) & 255).collect();
                }
                pool.push((e, vals));
            }
            for _ in 0..40 {
                let (a, va) = pool[r.n(pool.len() as u64) as usize].clone();
                let w = ar.w(a);
                let (e, v) = match r.n(10) {
                    0 => {
                        let nw = [8, 16, 32, 64, 128][r.n(5) as usize].max(w);
                        (ar.zext(a, nw), va.clone())
                    }
                    1 => {
                        let nw = [8, 16, 32, 64, 128][r.n(5) as usize].max(w);
                        (ar.sext(a, nw), va.iter().map(|x| sext(*x, w) as u128 & mask(nw)).collect())
                    }
                    2 => {
                        let nw = 1 + r.n(w as u64) as u32;
                        let lo = r.n((w - nw + 1) as u64) as u32;
                        (ar.extract(a, lo, nw), va.iter().map(|x| x >> lo & mask(nw)).collect())
                    }
                    3 => {
                        let (c, vc) = pool[r.n(pool.len() as u64) as usize].clone();
                        let (b, vb) = pool[r.n(pool.len() as u64) as usize].clone();
                        let b0 = if ar.w(b) <= w { ar.zext(b, w) } else { ar.extract(b, 0, w) };
                        let c0 = ar.extract(c, 0, 1);
                        let e = ar.ite(c0, a, b0);
                        (e, (0..6).map(|i| if vc[i] & 1 == 1 { va[i] } else { vb[i] & mask(w) }).collect())
                    }
                    _ => {
                        let op = [Add, Add, Sub, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle][r.n(20) as usize];
                        let (mut b, mut vb) = pool[r.n(pool.len() as u64) as usize].clone();
                        if r.n(3) == 0 || matches!(op, UDiv | URem | SDiv | SRem | Shl | LShr | AShr) {
                            let k = match r.n(4) {
                                0 => 1 + r.n(12) as u128,
                                1 => (r.n(100) as u128).wrapping_neg() & mask(w),
                                2 => 10,
                                _ => r.n(u64::MAX) as u128 & mask(w),
                            };
                            let k = if matches!(op, Shl | LShr | AShr) { k % w as u128 } else { k & mask(w) };
                            let k = if matches!(op, UDiv | URem | SDiv | SRem) && k == 0 { 1 } else { k };
                            b = ar.konst(w, k);
                            vb = vec![k & mask(w); 6];
                        }
                        let bw = ar.w(b);
                        let b = if bw <= w { ar.zext(b, w) } else { ar.extract(b, 0, w) };
                        let rw = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { w };
                        if w > 64 && matches!(op, SDiv | SRem) {
                            continue;
                        }
                        let e = ar.bin(op, a, b);
                        (e, (0..6).map(|i| fold(op, rw, va[i], vb[i] & mask(w), 0, 0, w, w)).collect())
                    }
                };
                for i in 0..6 {
                    assert_eq!(ar.eval(e, &models[i]), v[i], "round {} {:?}", round, ar.n[e as usize]);
                    if ar.w(e) <= 64 {
                        assert!(ar.lo[e as usize] as u128 <= v[i] && v[i] <= ar.hi[e as usize] as u128, "range round {} {:?}", round, ar.n[e as usize]);
                        let s = ar.srange(e);
                        let x = sext(v[i], ar.w(e));
                        assert!(s.0 <= x && x <= s.1, "srange");
                    } else if ar.hi[e as usize] < u64::MAX {
                        assert!(v[i] <= ar.hi[e as usize] as u128);
                    }
                }
                pool.push((e, v));
            }
        }
    }
}
