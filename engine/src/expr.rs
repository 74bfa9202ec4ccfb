//! Hash-consed bit-vector expressions over symbolic input bytes.
//!
//! Every symbolic input byte is `Var(k)` (8 bits).  Boolean expressions that depend on exactly
//! one input byte are kept canonical through their 256-entry truth table.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;
pub type Table = [u64; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u16),
    Bin(Bin, Id, Id),
    Cmp(Cmp, Id, Id),
    Not(Id),
    Ite(Id, Id, Id),
    ZExt(Id),
    SExt(Id),
    Extract(Id, u16),
    Concat(Id, Id),
}

#[derive(Clone, Copy)]
pub struct Node {
    pub n: N,
    pub w: u16,
    pub vars: u128,
    /// index + 1 in `tables` for single-variable booleans
    pub tab: u32,
    /// hash of the structure (of the truth table, for single-byte booleans):
    /// orders operands the same way in every worker's arena
    pub h: u64,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(N, u16), Id>,
    pub tables: Vec<Table>,
    canon: FxMap<(u16, Table), Id>,
    memo_val: Vec<u128>,
    memo_ep: Vec<u32>,
    epoch: u32,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn eval_bin(op: Bin, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        // SMT-LIB semantics for division by zero; the interpreter reports it before using it
        Bin::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Bin::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bin::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Bin::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Bin::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Bin::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bin::AShr => {
            let s = sext(a, w);
            let k = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (s >> k) as u128
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
    };
    r & m
}

pub fn eval_cmp(op: Cmp, w: u16, a: u128, b: u128) -> bool {
    match op {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Slt => sext(a, w) < sext(b, w),
    }
}

fn mix(x: u64) -> u64 {
    let x = (x ^ x >> 32).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let x = (x ^ x >> 29).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ x >> 32
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: Vec::new(),
            map: Default::default(),
            tables: Vec::new(),
            canon: Default::default(),
            memo_val: Vec::new(),
            memo_ep: Vec::new(),
            epoch: 0,
        };
        // id 0 is reserved: "no expression" in memory shadow
        a.raw(N::Const(0), 1);
        a
    }

    fn raw(&mut self, n: N, w: u16) -> Id {
        if let Some(&i) = self.map.get(&(n, w)) {
            return i;
        }
        let v = |s: &Self, i: Id| s.nodes[i as usize].vars;
        let vars = match n {
            N::Const(_) => 0,
            N::Var(k) => {
                assert!(k < 128, "more than 128 symbolic bytes on a path");
                1u128 << k
            }
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => v(self, a) | v(self, b),
            N::Ite(a, b, c) => v(self, a) | v(self, b) | v(self, c),
            N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => v(self, a),
        };
        let g = |s: &Self, i: Id| s.nodes[i as usize].h;
        let parts: [u64; 5] = match n {
            N::Const(c) => [1, c as u64, (c >> 64) as u64, 0, 0],
            N::Var(k) => [2, k as u64, 0, 0, 0],
            N::Bin(o, a, b) => [3, o as u64, g(self, a), g(self, b), 0],
            N::Cmp(o, a, b) => [4, o as u64, g(self, a), g(self, b), 0],
            N::Not(a) => [5, g(self, a), 0, 0, 0],
            N::Ite(a, b, c) => [6, g(self, a), g(self, b), g(self, c), 0],
            N::ZExt(a) => [7, g(self, a), 0, 0, 0],
            N::SExt(a) => [8, g(self, a), 0, 0, 0],
            N::Extract(a, lo) => [9, lo as u64, g(self, a), 0, 0],
            N::Concat(a, b) => [10, g(self, a), g(self, b), 0, 0],
        };
        let mut h = mix(w as u64);
        for x in parts {
            h = mix(h ^ x);
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { n, w, vars, tab: 0, h });
        self.memo_val.push(0);
        self.memo_ep.push(0);
        self.map.insert((n, w), id);
        if w == 1 && vars.count_ones() == 1 {
            // canonicalise through the truth table
            let var = vars.trailing_zeros() as u16;
            let t = self.compute_table(id, var);
            if t == [0; 4] {
                let f = self.konst(0, 1);
                self.map.insert((n, w), f);
                return f;
            }
            if t == [u64::MAX; 4] {
                let f = self.konst(1, 1);
                self.map.insert((n, w), f);
                return f;
            }
            if let Some(&c) = self.canon.get(&(var, t)) {
                self.map.insert((n, w), c);
                return c;
            }
            self.canon.insert((var, t), id);
            self.tables.push(t);
            self.nodes[id as usize].tab = self.tables.len() as u32;
            let mut h = mix(var as u64 ^ 0x5EED);
            for x in t {
                h = mix(h ^ x);
            }
            self.nodes[id as usize].h = h;
        }
        id
    }

    /// Does the expression have more than `n` distinct nodes?
    pub fn size_above(&self, e: Id, n: usize) -> bool {
        let mut seen = Vec::with_capacity(n + 1);
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if seen.contains(&x) {
                continue;
            }
            seen.push(x);
            if seen.len() > n {
                return true;
            }
            self.kids(x, &mut st);
        }
        false
    }
    fn kids(&self, e: Id, o: &mut Vec<Id>) {
        match self.nodes[e as usize].n {
            N::Const(_) | N::Var(_) => {}
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => o.extend([b, a]),
            N::Ite(a, b, c) => o.extend([c, b, a]),
            N::Not(a) | N::ZExt(a) | N::SExt(a) | N::Extract(a, _) => o.push(a),
        }
    }
    /// The single-byte condition in `e` that comes first by hash.
    pub fn first_table(&self, e: Id) -> Option<Id> {
        let mut seen: FxMap<Id, ()> = Default::default();
        let mut st = vec![e];
        let mut best: Option<Id> = None;
        while let Some(x) = st.pop() {
            if seen.insert(x, ()).is_some() || self.nodes[x as usize].vars == 0 {
                continue;
            }
            if self.nodes[x as usize].tab != 0 {
                if best.map_or(true, |b| self.nodes[x as usize].h < self.nodes[b as usize].h) {
                    best = Some(x);
                }
                continue;
            }
            self.kids(x, &mut st);
        }
        best
    }
    fn after(&self, a: Id, b: Id) -> bool {
        self.nodes[a as usize].h > self.nodes[b as usize].h
    }

    fn compute_table(&mut self, id: Id, var: u16) -> Table {
        let mut t = [0u64; 4];
        let mut asg = [0u8; 128];
        for v in 0..256usize {
            asg[var as usize] = v as u8;
            if self.eval(id, &asg) != 0 {
                t[v / 64] |= 1 << (v % 64);
            }
        }
        t
    }

    pub fn table(&self, id: Id) -> Option<&Table> {
        let t = self.nodes[id as usize].tab;
        if t == 0 {
            None
        } else {
            Some(&self.tables[t as usize - 1])
        }
    }

    pub fn eval(&mut self, id: Id, asg: &[u8]) -> u128 {
        self.epoch = self.epoch.wrapping_add(1);
        if self.epoch == 0 {
            self.memo_ep.iter_mut().for_each(|x| *x = 0);
            self.epoch = 1;
        }
        self.ev(id, asg)
    }

    fn ev(&mut self, id: Id, asg: &[u8]) -> u128 {
        let i = id as usize;
        let node = self.nodes[i];
        match node.n {
            N::Const(c) => return c,
            N::Var(k) => return asg.get(k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.memo_ep[i] == self.epoch {
            return self.memo_val[i];
        }
        let w = node.w;
        let r = match node.n {
            N::Const(_) | N::Var(_) => unreachable!(),
            N::Bin(op, a, b) => {
                let (x, y) = (self.ev(a, asg), self.ev(b, asg));
                eval_bin(op, w, x, y)
            }
            N::Cmp(op, a, b) => {
                let (x, y) = (self.ev(a, asg), self.ev(b, asg));
                eval_cmp(op, self.w(a), x, y) as u128
            }
            N::Not(a) => !self.ev(a, asg) & mask(w),
            N::Ite(c, a, b) => {
                if self.ev(c, asg) != 0 {
                    self.ev(a, asg)
                } else {
                    self.ev(b, asg)
                }
            }
            N::ZExt(a) => self.ev(a, asg),
            N::SExt(a) => sext(self.ev(a, asg), self.w(a)) as u128 & mask(w),
            N::Extract(a, lo) => (self.ev(a, asg) >> lo) & mask(w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                (self.ev(h, asg) << lw) | self.ev(l, asg)
            }
        };
        self.memo_val[i] = r;
        self.memo_ep[i] = self.epoch;
        r
    }

    #[inline]
    pub fn w(&self, id: Id) -> u16 {
        self.nodes[id as usize].w
    }
    #[inline]
    pub fn n(&self, id: Id) -> N {
        self.nodes[id as usize].n
    }
    #[inline]
    pub fn vars(&self, id: Id) -> u128 {
        self.nodes[id as usize].vars
    }
    #[inline]
    pub fn as_const(&self, id: Id) -> Option<u128> {
        match self.nodes[id as usize].n {
            N::Const(c) => Some(c),
            _ => None,
        }
    }

    pub fn konst(&mut self, c: u128, w: u16) -> Id {
        self.raw(N::Const(c & mask(w)), w)
    }
    pub fn var(&mut self, k: u16) -> Id {
        self.raw(N::Var(k), 8)
    }
    pub fn bool(&mut self, b: bool) -> Id {
        self.konst(b as u128, 1)
    }

    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        match self.n(a) {
            N::Const(c) => self.konst(!c, w),
            N::Not(x) => x,
            _ => self.raw(N::Not(a), w),
        }
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(Bin::Or, a, b)
    }

    pub fn bin(&mut self, op: Bin, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(eval_bin(op, w, x, y), w);
        }
        let comm = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        if comm && (ca.is_some() || (cb.is_none() && self.after(a, b))) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        match op {
            Bin::Sub => {
                if let Some(c) = cb {
                    let k = self.konst(0u128.wrapping_sub(c), w);
                    return self.bin(Bin::Add, a, k);
                }
                if a == b {
                    return self.konst(0, w);
                }
            }
            Bin::Add => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if let N::Bin(Bin::Add, x, y) = self.n(a) {
                        if let Some(d) = self.as_const(y) {
                            let k = self.konst(c.wrapping_add(d), w);
                            return self.bin(Bin::Add, x, k);
                        }
                    }
                }
                if w == 1 {
                    return self.bin(Bin::Xor, a, b);
                }
            }
            Bin::Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let k = self.konst(c.trailing_zeros() as u128, w);
                        return self.bin(Bin::Shl, a, k);
                    }
                }
            }
            Bin::And => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    let tz = c.trailing_zeros() as u16;
                    let ones = (c >> tz).trailing_ones() as u16;
                    if c >> tz == mask(ones) && w > 1 {
                        // contiguous mask
                        let e = self.extract(a, tz, ones);
                        let e = if tz > 0 {
                            let z = self.konst(0, tz);
                            self.concat(e, z)
                        } else {
                            e
                        };
                        return self.zext(e, w);
                    }
                }
                if a == b {
                    return a;
                }
                if w == 1 && (self.n(a) == N::Not(b) || self.n(b) == N::Not(a)) {
                    return self.konst(0, 1);
                }
            }
            Bin::Or => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if a == b {
                    return a;
                }
                if w == 1 && (self.n(a) == N::Not(b) || self.n(b) == N::Not(a)) {
                    return self.konst(1, 1);
                }
                if let Some(r) = self.or_disjoint(a, b).or_else(|| self.or_disjoint(b, a)) {
                    return r;
                }
            }
            Bin::Xor => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return self.not(a);
                    }
                }
                if a == b {
                    return self.konst(0, w);
                }
            }
            Bin::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(0, w);
                    }
                    let h = self.extract(a, 0, w - c as u16);
                    let z = self.konst(0, c as u16);
                    return self.concat(h, z);
                }
            }
            Bin::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.konst(0, w);
                    }
                    let h = self.extract(a, c as u16, w - c as u16);
                    return self.zext(h, w);
                }
            }
            Bin::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c < w as u128 {
                        let h = self.extract(a, c as u16, w - c as u16);
                        return self.sext(h, w);
                    }
                }
            }
            Bin::UDiv => {
                if let Some(c) = cb {
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let k = self.konst(c.trailing_zeros() as u128, w);
                        return self.bin(Bin::LShr, a, k);
                    }
                }
            }
            Bin::URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let k = self.konst(c - 1, w);
                        return self.bin(Bin::And, a, k);
                    }
                }
            }
            _ => {}
        }
        // if-then-else with constant arms against a constant
        if let (N::Ite(c, x, y), Some(_)) = (self.n(a), cb) {
            if self.as_const(x).is_some() && self.as_const(y).is_some() {
                let p = self.bin(op, x, b);
                let q = self.bin(op, y, b);
                return self.ite(c, p, q);
            }
        }
        self.raw(N::Bin(op, a, b), w)
    }

    /// `hi` has its low k bits zero and `lo` fits in k bits: a concatenation.
    fn or_disjoint(&mut self, hi: Id, lo: Id) -> Option<Id> {
        let w = self.w(hi);
        let lw = match self.n(lo) {
            N::ZExt(x) => self.w(x),
            _ => return None,
        };
        if lw == 0 || w <= lw {
            return None;
        }
        let low = self.extract(hi, 0, lw);
        if self.as_const(low) != Some(0) {
            return None;
        }
        let h = self.extract(hi, lw, w - lw);
        let l = self.extract(lo, 0, lw);
        Some(self.concat(h, l))
    }

    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match self.n(a) {
            N::Const(c) => self.konst(c, w),
            N::ZExt(x) => self.zext(x, w),
            N::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                self.ite(c, p, q)
            }
            _ => self.raw(N::ZExt(a), w),
        }
    }

    pub fn sext(&mut self, a: Id, w: u16) -> Id {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a) {
            N::Const(c) => self.konst(sext(c, aw) as u128, w),
            N::ZExt(_) => self.zext(a, w),
            N::Ite(c, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                self.ite(c, p, q)
            }
            _ => self.raw(N::SExt(a), w),
        }
    }

    pub fn extract(&mut self, a: Id, lo: u16, w: u16) -> Id {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw, "extract {lo}+{w} of {aw}");
        match self.n(a) {
            N::Const(c) => self.konst(c >> lo, w),
            N::Extract(x, l) => self.extract(x, l + lo, w),
            N::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw {
                    self.konst(0, w)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let e = self.extract(x, lo, xw - lo);
                    self.zext(e, w)
                }
            }
            N::SExt(x) if lo + w <= self.w(x) => self.extract(x, lo, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let p = self.extract(h, 0, lo + w - lw);
                    let q = self.extract(l, lo, lw - lo);
                    self.concat(p, q)
                }
            }
            N::Ite(c, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.ite(c, p, q)
            }
            N::Bin(op @ (Bin::And | Bin::Or | Bin::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            N::Not(x) => {
                let p = self.extract(x, lo, w);
                self.not(p)
            }
            N::Bin(op @ (Bin::Add | Bin::Sub | Bin::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            _ => self.raw(N::Extract(a, lo), w),
        }
    }

    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if let Some(c) = self.as_const(h) {
            if c == 0 {
                return self.zext(l, w);
            }
            if let Some(d) = self.as_const(l) {
                return self.konst((c << lw) | d, w);
            }
        }
        match (self.n(h), self.n(l)) {
            (N::Extract(x, lo1), N::Extract(y, lo2)) if x == y && lo1 == lo2 + lw => {
                return self.extract(x, lo2, w)
            }
            // the high bits of x against x itself (already narrowed)
            (N::Extract(x, lo1), _) if x == l && lo1 == lw => {}
            (N::ZExt(x), _) => {
                let c = self.concat(x, l);
                return self.zext(c, w);
            }
            (_, N::Concat(m, r)) => {
                // normalise to the left: ((h m) r)
                let hm = self.concat(h, m);
                return self.concat(hm, r);
            }
            _ => {}
        }
        if let N::Concat(p, q) = self.n(h) {
            // merge q with l when they are adjacent pieces
            if let (N::Extract(x, lo1), N::Extract(y, lo2)) = (self.n(q), self.n(l)) {
                if x == y && lo1 == lo2 + lw {
                    let ql = self.extract(x, lo2, self.w(q) + lw);
                    return self.concat(p, ql);
                }
            }
        }
        self.raw(N::Concat(h, l), w)
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = self.n(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(x), Some(_)) => return if x == 1 { c } else { self.not(c) },
                (Some(1), None) => return self.or(c, b),
                (Some(_), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(_)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.raw(N::Ite(c, a, b), w)
    }

    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        self.cmp(Cmp::Eq, a, b)
    }
    pub fn eq_const(&mut self, a: Id, c: u128) -> Id {
        let k = self.konst(c, self.w(a));
        self.cmp(Cmp::Eq, a, k)
    }

    pub fn cmp(&mut self, op: Cmp, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = eval_cmp(op, w, x, y);
            return self.bool(r);
        }
        if a == b {
            return self.bool(op == Cmp::Eq);
        }
        if op == Cmp::Eq && (ca.is_some() || (cb.is_none() && self.after(a, b))) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(w);
        match op {
            Cmp::Eq => {
                if let Some(c) = cb {
                    match self.n(a) {
                        _ if w == 1 => return if c == 1 { a } else { self.not(a) },
                        N::ZExt(x) => {
                            let xw = self.w(x);
                            return if c > mask(xw) { self.bool(false) } else { self.eq_const(x, c) };
                        }
                        N::SExt(x) => {
                            let xw = self.w(x);
                            let t = c & mask(xw);
                            return if sext(t, xw) as u128 & m == c { self.eq_const(x, t) } else { self.bool(false) };
                        }
                        N::Concat(h, l) => {
                            let lw = self.w(l);
                            let p = self.eq_const(h, c >> lw);
                            let q = self.eq_const(l, c & mask(lw));
                            return self.and(p, q);
                        }
                        N::Ite(k, x, y) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                            let p = self.eq(x, b);
                            let q = self.eq(y, b);
                            return self.ite(k, p, q);
                        }
                        N::Bin(Bin::Add, x, y) => {
                            if let Some(d) = self.as_const(y) {
                                return self.eq_const(x, c.wrapping_sub(d));
                            }
                        }
                        N::Bin(Bin::Xor, x, y) => {
                            if let Some(d) = self.as_const(y) {
                                return self.eq_const(x, c ^ d);
                            }
                            if c == 0 {
                                return self.eq(x, y);
                            }
                        }
                        N::Bin(Bin::Sub, x, y) if c == 0 => return self.eq(x, y),
                        N::Bin(Bin::Or, x, y) if c == 0 => {
                            let p = self.eq_const(x, 0);
                            let q = self.eq_const(y, 0);
                            return self.and(p, q);
                        }
                        N::Not(x) => return self.eq_const(x, !c & m),
                        _ => {}
                    }
                } else {
                    match (self.n(a), self.n(b)) {
                        (N::ZExt(x), N::ZExt(y)) if self.w(x) == self.w(y) => return self.eq(x, y),
                        (N::Concat(h, l), N::Concat(h2, l2)) if self.w(l) == self.w(l2) => {
                            let p = self.eq(h, h2);
                            let q = self.eq(l, l2);
                            return self.and(p, q);
                        }
                        _ => {}
                    }
                    if w == 1 {
                        let x = self.bin(Bin::Xor, a, b);
                        return self.not(x);
                    }
                }
            }
            Cmp::Ult => {
                if cb == Some(0) || ca == Some(m) {
                    return self.bool(false);
                }
                if let (N::ZExt(x), N::ZExt(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.cmp(op, x, y);
                    }
                }
                if let (N::ZExt(x), Some(c)) = (self.n(a), cb) {
                    let xw = self.w(x);
                    if c > mask(xw) {
                        return self.bool(true);
                    }
                    let k = self.konst(c, xw);
                    return self.cmp(op, x, k);
                }
                if let (Some(c), N::ZExt(y)) = (ca, self.n(b)) {
                    let yw = self.w(y);
                    if c >= mask(yw) {
                        return self.bool(false);
                    }
                    let k = self.konst(c, yw);
                    return self.cmp(op, k, y);
                }
                if let (N::Ite(k, x, y), Some(_)) = (self.n(a), cb) {
                    if self.as_const(x).is_some() || self.as_const(y).is_some() {
                        let p = self.cmp(op, x, b);
                        let q = self.cmp(op, y, b);
                        return self.ite(k, p, q);
                    }
                }
                if let (Some(_), N::Ite(k, x, y)) = (ca, self.n(b)) {
                    if self.as_const(x).is_some() || self.as_const(y).is_some() {
                        let p = self.cmp(op, a, x);
                        let q = self.cmp(op, a, y);
                        return self.ite(k, p, q);
                    }
                }
            }
            Cmp::Slt => {
                let nonneg = |s: &Self, i: Id, c: Option<u128>| match (s.n(i), c) {
                    (N::ZExt(_), _) => true,
                    (_, Some(v)) => v >> (w - 1) == 0,
                    _ => false,
                };
                let (na, nb) = (nonneg(self, a, ca), nonneg(self, b, cb));
                if na && nb {
                    return self.cmp(Cmp::Ult, a, b);
                }
                if na && cb.is_some() {
                    return self.bool(false); // b negative
                }
                if nb && ca.is_some() {
                    return self.bool(true); // a negative
                }
                if let (N::Ite(k, x, y), Some(_)) = (self.n(a), cb) {
                    if self.as_const(x).is_some() || self.as_const(y).is_some() {
                        let p = self.cmp(op, x, b);
                        let q = self.cmp(op, y, b);
                        return self.ite(k, p, q);
                    }
                }
                if let (N::SExt(x), Some(c)) = (self.n(a), cb) {
                    let xw = self.w(x);
                    let t = c & mask(xw);
                    if sext(t, xw) as u128 & m == c {
                        let k = self.konst(t, xw);
                        return self.cmp(op, x, k);
                    }
                }
            }
        }
        self.raw(N::Cmp(op, a, b), 1)
    }

    pub fn show(&self, id: Id) -> String {
        self.show_d(id, 12)
    }
    fn show_d(&self, id: Id, d: u32) -> String {
        if d == 0 {
            return "…".into();
        }
        let s = |i: Id| self.show_d(i, d - 1);
        match self.n(id) {
            N::Const(c) => format!("{c:#x}:{}", self.w(id)),
            N::Var(k) => format!("b{k}"),
            N::Bin(o, a, b) => format!("({o:?} {} {})", s(a), s(b)),
            N::Cmp(o, a, b) => format!("({o:?} {} {})", s(a), s(b)),
            N::Not(a) => format!("!{}", s(a)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            N::ZExt(a) => format!("z{}({})", self.w(id), s(a)),
            N::SExt(a) => format!("s{}({})", self.w(id), s(a)),
            N::Extract(a, lo) => format!("{}[{}+{}]", s(a), lo, self.w(id)),
            N::Concat(a, b) => format!("({}·{})", s(a), s(b)),
        }
    }
}
