//! Hash-consed bit-vector expressions with a normalising constructor for each operation.
//! Id 0 means "no expression" (the value is concrete).
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key {
    op: Op,
    w: u8,
    a: E,
    b: E,
    c: E,
    k: u128,
}

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    /// Const: value; Var: index; Extract: low bit
    pub k: u128,
    pub vars: u128,
    pub lo: u128,
    pub hi: u128,
}

pub struct Dag {
    pub n: Vec<Node>,
    map: FxMap<Key, E>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Dag {
    pub fn new() -> Dag {
        let z = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0, vars: 0, lo: 0, hi: 0 };
        Dag { n: vec![z], map: FxMap::default() }
    }
    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    pub fn op(&self, e: E) -> Op {
        self.n[e as usize].op
    }
    pub fn vars(&self, e: E) -> u128 {
        self.n[e as usize].vars
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, op: Op, w: u8, a: E, b: E, c: E, k: u128) -> E {
        let key = Key { op, w, a, b, c, k };
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let mut vars = 0u128;
        match op {
            Op::Var => vars = 1u128 << (k as u32 & 127),
            Op::Const => {}
            _ => {
                for x in [a, b, c] {
                    if x != 0 {
                        vars |= self.n[x as usize].vars
                    }
                }
            }
        }
        let (lo, hi) = self.range(op, w, a, b, c, k);
        let e = self.n.len() as E;
        self.n.push(Node { op, w, a, b, c, k, vars, lo, hi });
        self.map.insert(key, e);
        e
    }
    fn range(&self, op: Op, w: u8, a: E, b: E, c: E, k: u128) -> (u128, u128) {
        let m = mask(w);
        let r = |e: E| {
            let n = &self.n[e as usize];
            (n.lo, n.hi)
        };
        match op {
            Op::Const => (k, k),
            Op::Concat => {
                let wb = self.w(b);
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                ((al << wb) | bl, (ah << wb) | bh)
            }
            Op::Extract => {
                let (al, ah) = r(a);
                let lob = k as u32;
                if (ah >> lob) <= m {
                    (al >> lob, ah >> lob)
                } else if (al >> lob) >> w == (ah >> lob) >> w {
                    ((al >> lob) & m, (ah >> lob) & m)
                } else {
                    (0, m)
                }
            }
            Op::Ite => {
                let (al, ah) = r(b);
                let (bl, bh) = r(c);
                (al.min(bl), ah.max(bh))
            }
            Op::Add => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match ah.checked_add(bh) {
                    Some(s) if s <= m => (al + bl, s),
                    _ => {
                        // both wrap?
                        if let (Some(l), Some(h)) = (al.checked_add(bl), ah.checked_add(bh)) {
                            if w < 127 && l > m && h <= m + m + 1 {
                                return (l & m, h & m);
                            }
                        }
                        (0, m)
                    }
                }
            }
            Op::Sub => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    (0, m)
                }
            }
            Op::Mul => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match ah.checked_mul(bh) {
                    Some(s) if s <= m => (al * bl, s),
                    _ => (0, m),
                }
            }
            Op::And => {
                let (_, ah) = r(a);
                let (_, bh) = r(b);
                (0, ah.min(bh))
            }
            Op::Or => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                let x = ah | bh;
                let h = if x == 0 { 0 } else { mask(128 - x.leading_zeros() as u8) };
                (al.max(bl), h.min(m))
            }
            Op::Xor => {
                let (_, ah) = r(a);
                let (_, bh) = r(b);
                let x = ah | bh;
                (0, if x == 0 { 0 } else { mask(128 - x.leading_zeros() as u8) })
            }
            Op::UDiv => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                if bl > 0 {
                    (al / bh, ah / bl)
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                let (_, ah) = r(a);
                let (bl, bh) = r(b);
                if bl > 0 {
                    (0, ah.min(bh - 1))
                } else {
                    (0, m)
                }
            }
            Op::LShr => {
                let (_, ah) = r(a);
                (0, ah)
            }
            Op::Not => {
                let (al, ah) = r(a);
                (m - ah, m - al)
            }
            _ => (0, m),
        }
    }
    pub fn cst(&mut self, w: u8, k: u128) -> E {
        self.mk(Op::Const, w, 0, 0, 0, k & mask(w))
    }
    pub fn var(&mut self, idx: usize, w: u8) -> E {
        assert!(idx < 128, "more than 128 symbolic variables on a path");
        self.mk(Op::Var, w, 0, 0, 0, idx as u128)
    }
    // ---- structure -------------------------------------------------
    /// an expression with just two values, selected by one condition
    fn two(&self, e: E) -> Option<(E, u128, u128)> {
        let n = self.n[e as usize];
        match n.op {
            Op::Ite => match (self.is_const(n.b), self.is_const(n.c)) {
                (Some(x), Some(y)) => Some((n.a, x, y)),
                _ => None,
            },
            Op::Concat => {
                let wb = self.w(n.b);
                match (self.is_const(n.a), self.two(n.b)) {
                    (Some(k), Some((c, x, y))) => Some((c, k << wb | x, k << wb | y)),
                    (None, r) => {
                        let (c, x, y) = self.two(n.a)?;
                        if let Some(k) = self.is_const(n.b) {
                            return Some((c, x << wb | k, y << wb | k));
                        }
                        let (d, p, q) = r?;
                        if c == d {
                            Some((c, x << wb | p, y << wb | q))
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Const && nb.op == Op::Const {
            return self.cst(na.w + nb.w, (na.k << nb.w) | nb.k);
        }
        if na.op == Op::Concat {
            let t = self.concat(na.b, b);
            return self.concat(na.a, t);
        }
        if nb.op == Op::Concat {
            if let Some(m) = self.merge(a, nb.a) {
                return self.concat(m, nb.b);
            }
        } else if let Some(m) = self.merge(a, b) {
            return m;
        }
        self.mk(Op::Concat, na.w + nb.w, a, b, 0, 0)
    }
    fn merge(&mut self, a: E, b: E) -> Option<E> {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.op == Op::Const && nb.op == Op::Const {
            return Some(self.cst(na.w + nb.w, (na.k << nb.w) | nb.k));
        }
        if na.op == Op::Extract {
            if nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
                return Some(self.extract(na.a, nb.k as u8, na.w + nb.w));
            }
            if na.a == b && na.k == nb.w as u128 {
                // extract(x, ..) ++ x : cannot merge unless x narrower; ignore
                return None;
            }
        }
        None
    }
    /// w bits starting at lo
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let n = self.n[a as usize];
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.cst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u8 + lo, w),
            Op::Concat => {
                let wb = self.w(n.b);
                if lo >= wb {
                    return self.extract(n.a, lo - wb, w);
                }
                if lo + w <= wb {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wb - lo);
                let h = self.extract(n.a, 0, lo + w - wb);
                return self.concat(h, l);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 && w > wa {
                    return self.sextend(n.a, w);
                }
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() || w == 8 {
                    let t = self.extract(n.b, lo, w);
                    let e = self.extract(n.c, lo, w);
                    return self.ite(n.a, t, e);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            _ => {}
        }
        if n.hi >> lo == 0 {
            return self.cst(w, 0);
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let z = self.cst(w - wa, 0);
        self.concat(z, a)
    }
    pub fn sextend(&mut self, a: E, w: u8) -> E {
        let n = self.n[a as usize];
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.cst(w, sext(n.k, n.w) as u128);
        }
        if n.hi < (1u128 << (n.w - 1)) {
            return self.zext(a, w);
        }
        if n.op == Op::Ite && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) {
            let t = self.sextend(n.b, w);
            let e = self.sextend(n.c, w);
            return self.ite(n.a, t, e);
        }
        if n.op == Op::SExt {
            return self.mk(Op::SExt, w, n.a, 0, 0, 0);
        }
        if n.w == 1 {
            let t = self.cst(w, u128::MAX);
            let f = self.cst(w, 0);
            return self.ite(a, t, f);
        }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    // ---- bitwise ---------------------------------------------------
    pub fn not(&mut self, a: E) -> E {
        let n = self.n[a as usize];
        match n.op {
            Op::Const => self.cst(n.w, !n.k),
            Op::Not => n.a,
            Op::Concat => {
                let x = self.not(n.a);
                let y = self.not(n.b);
                self.concat(x, y)
            }
            Op::Ite if n.w > 1 && (self.is_const(n.b).is_some() || self.is_const(n.c).is_some()) => {
                let x = self.not(n.b);
                let y = self.not(n.c);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::Not, n.w, a, 0, 0, 0),
        }
    }
    fn low_seg(&self, a: E) -> u8 {
        // width of the lowest segment
        let mut e = a;
        loop {
            let n = &self.n[e as usize];
            if n.op == Op::Concat {
                e = n.b
            } else {
                return n.w;
            }
        }
    }
    fn has_const_seg(&self, a: E) -> bool {
        let mut e = a;
        loop {
            let n = &self.n[e as usize];
            if n.op == Op::Concat {
                if self.op(n.a) == Op::Const {
                    return true;
                }
                e = n.b
            } else {
                return n.op == Op::Const;
            }
        }
    }
    fn bitwise(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return match op {
                Op::Xor => self.cst(w, 0),
                _ => a,
            };
        }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let k = match op {
                Op::And => x & y,
                Op::Or => x | y,
                _ => x ^ y,
            };
            return self.cst(w, k);
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        if let Some(k) = cb {
            let m = mask(w);
            match op {
                Op::And => {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                }
                Op::Or => {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                _ => {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                }
            }
            let na = self.n[a as usize];
            if na.op == Op::Ite && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
                let x = self.bitwise(op, na.b, b);
                let y = self.bitwise(op, na.c, b);
                return self.ite(na.a, x, y);
            }
            // split by runs of equal bits
            let mut out: Option<E> = None;
            let mut i = 0u8;
            while i < w {
                let bit = (k >> i) & 1;
                let mut j = i;
                while j < w && (k >> j) & 1 == bit {
                    j += 1
                }
                let seg = self.extract(a, i, j - i);
                let piece = match (op, bit) {
                    (Op::And, 0) => self.cst(j - i, 0),
                    (Op::And, _) => seg,
                    (Op::Or, 0) => seg,
                    (Op::Or, _) => self.cst(j - i, u128::MAX),
                    (_, 0) => seg,
                    (_, _) => self.not(seg),
                };
                out = Some(match out {
                    None => piece,
                    Some(o) => self.concat(piece, o),
                });
                i = j;
            }
            return out.unwrap();
        }
        if w == 1 {
            let (na, nb) = (self.n[a as usize], self.n[b as usize]);
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return match op {
                    Op::And => self.cst(1, 0),
                    _ => self.cst(1, 1),
                };
            }
            if op == Op::Xor {
                // (a != b)
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        if self.has_const_seg(a) || self.has_const_seg(b) {
            let s = self.low_seg(a).min(self.low_seg(b));
            if s < w {
                let al = self.extract(a, 0, s);
                let bl = self.extract(b, 0, s);
                let ah = self.extract(a, s, w - s);
                let bh = self.extract(b, s, w - s);
                let l = self.bitwise(op, al, bl);
                let h = self.bitwise(op, ah, bh);
                return self.concat(h, l);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bitwise(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bitwise(Op::Or, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        self.bitwise(Op::Xor, a, b)
    }
    // ---- arithmetic ------------------------------------------------
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(w, x.wrapping_add(y));
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        if let Some(k) = cb {
            if k == 0 {
                return a;
            }
            let na = self.n[a as usize];
            if na.op == Op::Add {
                if let Some(k2) = self.is_const(na.b) {
                    let c = self.cst(w, k.wrapping_add(k2));
                    return self.add(na.a, c);
                }
            }
            if na.op == Op::Ite && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
                let x = self.add(na.b, b);
                let y = self.add(na.c, b);
                return self.ite(na.a, x, y);
            }
            if let Some((c, x, y)) = self.two(a) {
                let (x, y) = (self.cst(w, x.wrapping_add(k)), self.cst(w, y.wrapping_add(k)));
                return self.ite(c, x, y);
            }
            return self.mk(Op::Add, w, a, b, 0, 0);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(w, 0);
        }
        if let Some(y) = self.is_const(b) {
            let c = self.cst(w, y.wrapping_neg());
            return self.add(a, c);
        }
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if let Some(x) = self.is_const(a) {
            if nb.op == Op::Ite && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some()) {
                let p = self.sub(a, nb.b);
                let q = self.sub(a, nb.c);
                return self.ite(nb.a, p, q);
            }
            let _ = x;
        }
        // (x + k) - x
        if na.op == Op::Add && na.a == b {
            return na.b;
        }
        if nb.op == Op::Add && nb.a == a {
            let z = self.cst(w, 0);
            return self.sub(z, nb.b);
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(w, x.wrapping_mul(y));
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        if let Some(k) = cb {
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                return self.shl_k(a, k.trailing_zeros() as u8);
            }
            let na = self.n[a as usize];
            if na.op == Op::Ite && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
                let x = self.mul(na.b, b);
                let y = self.mul(na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    fn shl_k(&mut self, a: E, k: u8) -> E {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.cst(w, 0);
        }
        let x = self.extract(a, 0, w - k);
        let z = self.cst(k, 0);
        self.concat(x, z)
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        match op {
            Op::And | Op::Or | Op::Xor => self.bitwise(op, a, b),
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::Shl => match self.is_const(b) {
                Some(k) => self.shl_k(a, k.min(255) as u8),
                None => self.mk(op, w, a, b, 0, 0),
            },
            Op::LShr => match self.is_const(b) {
                Some(k) => {
                    let k = k.min(255) as u8;
                    if k == 0 {
                        return a;
                    }
                    if k >= w {
                        return self.cst(w, 0);
                    }
                    let x = self.extract(a, k, w - k);
                    self.zext(x, w)
                }
                None => self.mk(op, w, a, b, 0, 0),
            },
            Op::AShr => match self.is_const(b) {
                Some(k) => {
                    let k = (k.min(255) as u8).min(w - 1);
                    if k == 0 {
                        return a;
                    }
                    let x = self.extract(a, k, w - k);
                    self.sextend(x, w)
                }
                None => self.mk(op, w, a, b, 0, 0),
            },
            Op::UDiv => {
                if let Some(k) = self.is_const(b) {
                    if let Some(x) = self.is_const(a) {
                        if k != 0 {
                            return self.cst(w, x / k);
                        }
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, c);
                    }
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::URem => {
                if let Some(k) = self.is_const(b) {
                    if let Some(x) = self.is_const(a) {
                        if k != 0 {
                            return self.cst(w, x % k);
                        }
                    }
                    if k.is_power_of_two() {
                        let c = self.cst(w, k - 1);
                        return self.and(a, c);
                    }
                }
                self.mk(op, w, a, b, 0, 0)
            }
            Op::SDiv | Op::SRem => {
                if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
                    if y != 0 {
                        let (x, y) = (sext(x, w), sext(y, w));
                        let r = if op == Op::SDiv { x.wrapping_div(y) } else { x.wrapping_rem(y) };
                        return self.cst(w, r as u128);
                    }
                }
                self.mk(op, w, a, b, 0, 0)
            }
            _ => unreachable!(),
        }
    }
    // ---- predicates ------------------------------------------------
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(1, 1);
        }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        debug_assert_eq!(na.w, nb.w);
        if na.hi < nb.lo || nb.hi < na.lo {
            return self.cst(1, 0);
        }
        if let Some(k) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(1, (x == k) as u128);
            }
            if na.w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::Ite if self.is_const(na.b).is_some() || self.is_const(na.c).is_some() => {
                    let x = self.eq(na.b, b);
                    let y = self.eq(na.c, b);
                    return self.ite(na.a, x, y);
                }
                Op::Not => {
                    let nk = self.cst(na.w, !k);
                    return self.eq(na.a, nk);
                }
                Op::Add => {
                    if let Some(k2) = self.is_const(na.b) {
                        let c = self.cst(na.w, k.wrapping_sub(k2));
                        return self.eq(na.a, c);
                    }
                }
                Op::SExt => {
                    let wa = self.w(na.a);
                    let lowk = k & mask(wa);
                    if (sext(lowk, wa) as u128) & mask(na.w) != k {
                        return self.cst(1, 0);
                    }
                    let c = self.cst(wa, lowk);
                    return self.eq(na.a, c);
                }
                _ => {}
            }
        }
        // segment-wise
        if na.op == Op::Concat || nb.op == Op::Concat {
            // drop segments where both are constant
            let mut ra: Option<E> = None;
            let mut rb: Option<E> = None;
            let (mut x, mut y) = (a, b);
            let mut dropped = false;
            loop {
                let w = self.w(x);
                let s = self.low_seg(x).min(self.low_seg(y));
                let xl = self.extract(x, 0, s);
                let yl = self.extract(y, 0, s);
                match (self.is_const(xl), self.is_const(yl)) {
                    (Some(p), Some(q)) => {
                        if p != q {
                            return self.cst(1, 0);
                        }
                        dropped = true;
                    }
                    _ if xl == yl => dropped = true,
                    _ => {
                        ra = Some(match ra {
                            None => xl,
                            Some(r) => self.concat(xl, r),
                        });
                        rb = Some(match rb {
                            None => yl,
                            Some(r) => self.concat(yl, r),
                        });
                    }
                }
                if s == w {
                    break;
                }
                x = self.extract(x, s, w - s);
                y = self.extract(y, s, w - s);
            }
            if dropped {
                return match (ra, rb) {
                    (Some(p), Some(q)) => self.eq(p, q),
                    _ => self.cst(1, 1),
                };
            }
        }
        if na.w == 1 {
            if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a {
                return self.cst(1, 0);
            }
            if na.op == Op::Not {
                let e = self.eq(na.a, b);
                return self.not(e);
            }
            if nb.op == Op::Not {
                let e = self.eq(a, nb.a);
                return self.not(e);
            }
        }
        let (a, b) = if self.is_const(b).is_some() || a < b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.cst(1, 0);
        }
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if na.hi < nb.lo {
            return self.cst(1, 1);
        }
        if na.lo >= nb.hi {
            return self.cst(1, 0);
        }
        if na.w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        if let Some(k) = self.is_const(b) {
            if k == 1 {
                let z = self.cst(na.w, 0);
                return self.eq(a, z);
            }
            if k == mask(na.w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        if let Some(0) = self.is_const(a) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if na.op == Op::Ite && nb.op == Op::Const && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && na.op == Op::Const && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some()) {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        // common constant prefix
        let top = |d: &Dag, e: E| -> (u8, Option<u128>) {
            let n = &d.n[e as usize];
            match n.op {
                Op::Const => (n.w, Some(n.k)),
                Op::Concat => (d.w(n.a), d.is_const(n.a)),
                _ => (n.w, None),
            }
        };
        let (wa, ka) = top(self, a);
        let (wb, kb) = top(self, b);
        if ka.is_some() && kb.is_some() {
            let w = na.w;
            let s = wa.min(wb);
            if s < w {
                let pa = self.extract(a, w - s, s);
                let pb = self.extract(b, w - s, s);
                if pa == pb {
                    let x = self.extract(a, 0, w - s);
                    let y = self.extract(b, 0, w - s);
                    return self.ult(x, y);
                }
            }
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        if a == b {
            return self.cst(1, 0);
        }
        let w = na.w;
        let half = 1u128 << (w - 1);
        let pos = |n: &Node| n.hi < half;
        let neg = |n: &Node| n.lo >= half;
        if (pos(&na) && pos(&nb)) || (neg(&na) && neg(&nb)) {
            return self.ult(a, b);
        }
        if pos(&na) && neg(&nb) {
            return self.cst(1, 0);
        }
        if neg(&na) && pos(&nb) {
            return self.cst(1, 1);
        }
        if na.op == Op::Ite && nb.op == Op::Const && (self.is_const(na.b).is_some() || self.is_const(na.c).is_some()) {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        if nb.op == Op::Ite && na.op == Op::Const && (self.is_const(nb.b).is_some() || self.is_const(nb.c).is_some()) {
            let x = self.slt(a, nb.b);
            let y = self.slt(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        if let Some(0) = self.is_const(b) {
            return self.extract(a, w - 1, 1);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if t == f {
            return t;
        }
        if let Some(k) = self.is_const(c) {
            return if k == 1 { t } else { f };
        }
        let nc = self.n[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.is_const(t), self.is_const(f)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, f),
                (Some(_), None) => {
                    let n = self.not(c);
                    return self.and(n, f);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, t);
                }
                (None, Some(_)) => return self.and(c, t),
                _ => {}
            }
        }
        // same condition nested
        let nt = self.n[t as usize];
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        let nf = self.n[f as usize];
        if nf.op == Op::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        // pull out a common constant prefix (keeps zero-extension visible)
        if nt.op == Op::Concat && nf.op == Op::Concat && nt.a == nf.a {
            let x = self.ite(c, nt.b, nf.b);
            return self.concat(nt.a, x);
        }
        self.mk(Op::Ite, w, c, t, f, 0)
    }
    /// evaluate under an assignment (used for self checks)
    pub fn eval(&self, e: E, asg: &dyn Fn(usize) -> u128, memo: &mut FxMap<E, u128>) -> u128 {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let n = self.n[e as usize];
        let m = mask(n.w);
        let mut g = |x: E| self.eval(x, asg, memo);
        let v = match n.op {
            Op::Const => n.k,
            Op::Var => asg(n.k as usize) & m,
            Op::Not => !g(n.a) & m,
            Op::And => g(n.a) & g(n.b),
            Op::Or => g(n.a) | g(n.b),
            Op::Xor => g(n.a) ^ g(n.b),
            Op::Add => g(n.a).wrapping_add(g(n.b)) & m,
            Op::Sub => g(n.a).wrapping_sub(g(n.b)) & m,
            Op::Mul => g(n.a).wrapping_mul(g(n.b)) & m,
            Op::UDiv => {
                let (x, y) = (g(n.a), g(n.b));
                if y == 0 { m } else { x / y }
            }
            Op::URem => {
                let (x, y) = (g(n.a), g(n.b));
                if y == 0 { x } else { x % y }
            }
            Op::SDiv => {
                let (x, y) = (sext(g(n.a), n.w), sext(g(n.b), n.w));
                if y == 0 { m } else { x.wrapping_div(y) as u128 & m }
            }
            Op::SRem => {
                let (x, y) = (sext(g(n.a), n.w), sext(g(n.b), n.w));
                if y == 0 { x as u128 & m } else { x.wrapping_rem(y) as u128 & m }
            }
            Op::Shl => {
                let (x, y) = (g(n.a), g(n.b));
                if y >= n.w as u128 { 0 } else { (x << y) & m }
            }
            Op::LShr => {
                let (x, y) = (g(n.a), g(n.b));
                if y >= n.w as u128 { 0 } else { x >> y }
            }
            Op::AShr => {
                let (x, y) = (g(n.a), g(n.b));
                let y = y.min(n.w as u128 - 1);
                (sext(x, n.w) >> y) as u128 & m
            }
            Op::Concat => {
                let wb = self.w(n.b);
                (g(n.a) << wb) | g(n.b)
            }
            Op::Extract => (g(n.a) >> n.k) & m,
            Op::SExt => {
                let wa = self.w(n.a);
                sext(g(n.a), wa) as u128 & m
            }
            Op::Eq => (g(n.a) == g(n.b)) as u128,
            Op::Ult => (g(n.a) < g(n.b)) as u128,
            Op::Slt => {
                let wa = self.w(n.a);
                (sext(g(n.a), wa) < sext(g(n.b), wa)) as u128
            }
            Op::Ite => {
                if g(n.a) == 1 {
                    g(n.b)
                } else {
                    g(n.c)
                }
            }
        };
        memo.insert(e, v);
        v
    }
}
