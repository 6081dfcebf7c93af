//! Hash-consed bit-vector expressions over 8-bit input variables.
//!
//! Every expression that depends on exactly one variable carries its complete value table (256 entries), which is used
//! to canonicalise it; expressions over several variables stay structural and are decided by the SMT solver.
use crate::ir::{sx, Bin, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, y) in c.iter().enumerate() {
                x |= (*y as u64) << (8 * i);
            }
            self.write_u64(x);
        }
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;
pub type Dom = [u64; 4];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    Nil,
    Const(u64),
    Var(u8),
    Bin(Bin, E, E),
    Cmp(Pred, E, E),
    Zext(E),
    Sext(E),
    Extract(E, u8), // low bit; width from info
    Bytes(Box<[E]>), // little endian 8-bit parts
    Ite(E, E, E),
    Tab(u8, Box<[u64]>), // explicit table over a variable
}

pub struct Info {
    pub node: Node,
    pub w: u8,
    pub vars: u64,
    pub tab: Option<Box<[u64; 256]>>,
    pub tt: Dom, // truth set of a single-variable boolean
}

pub struct Pool {
    pub n: Vec<Info>,
    map: FxMap<(Node, u8), E>,
    tabs: FxMap<(u8, u8, u64), Vec<E>>,
    memo: Vec<(u32, u64)>,
    epoch: u32,
}

impl std::hash::Hash for Pred {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(*self as u8)
    }
}

#[inline]
pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

#[inline]
pub fn bin_c(op: Bin, w: u32, a: u64, b: u64) -> u64 {
    let m = if w >= 64 { !0 } else { (1u64 << w) - 1 };
    (match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => {
            if b == 0 {
                !0
            } else {
                a / b
            }
        }
        Bin::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Bin::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    !0
                }
            } else {
                x.wrapping_div(y) as u64
            }
        }
        Bin::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        Bin::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Bin::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Bin::AShr => {
            let s = b.min(w as u64 - 1);
            (sx(a, w) >> s) as u64
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
    }) & m
}

#[inline]
pub fn cmp_c(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}

impl Pool {
    pub fn new() -> Pool {
        Pool {
            n: vec![Info { node: Node::Nil, w: 0, vars: 0, tab: None, tt: [0; 4] }],
            map: Default::default(),
            tabs: Default::default(),
            memo: vec![],
            epoch: 0,
        }
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.n[e as usize].w
    }
    #[inline]
    pub fn vars(&self, e: E) -> u64 {
        self.n[e as usize].vars
    }
    #[inline]
    pub fn cval(&self, e: E) -> Option<u64> {
        match self.n[e as usize].node {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    pub fn tab(&self, e: E) -> Option<&[u64; 256]> {
        self.n[e as usize].tab.as_deref()
    }
    pub fn var_of(&self, e: E) -> usize {
        self.vars(e).trailing_zeros() as usize
    }
    pub fn c(&mut self, v: u64, w: u8) -> E {
        self.raw(Node::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, i: u8) -> E {
        self.raw(Node::Var(i), 8)
    }
    fn raw(&mut self, node: Node, w: u8) -> E {
        let key = (node, w);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let (node, _) = key.clone();
        let vars = match &node {
            Node::Nil | Node::Const(_) => 0,
            Node::Var(i) | Node::Tab(i, _) => 1u64 << *i,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) => self.vars(*a) | self.vars(*b),
            Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) => self.vars(*a),
            Node::Bytes(v) => v.iter().fold(0, |m, x| m | self.vars(*x)),
            Node::Ite(a, b, c) => self.vars(*a) | self.vars(*b) | self.vars(*c),
        };
        let mut tab = None;
        if vars != 0 && vars & (vars - 1) == 0 {
            let mut t = Box::new([0u64; 256]);
            for i in 0..256usize {
                t[i] = self.eval1(&node, w, i);
            }
            // canonicalise
            if t.iter().all(|x| *x == t[0]) {
                let e = self.c(t[0], w);
                self.map.insert(key, e);
                return e;
            }
            let mut h = Fx::default();
            for x in t.iter() {
                h.write_u64(*x);
            }
            let k = (vars.trailing_zeros() as u8, w, h.finish());
            if let Some(v) = self.tabs.get(&k) {
                for &e in v {
                    if self.n[e as usize].tab.as_deref() == Some(&*t) {
                        self.map.insert(key, e);
                        return e;
                    }
                }
            }
            self.tabs.entry(k).or_default().push(self.n.len() as E);
            tab = Some(t);
        }
        let e = self.n.len() as E;
        let mut tt = [0u64; 4];
        if let (1, Some(t)) = (w, &tab) {
            for i in 0..256 {
                tt[i >> 6] |= t[i] << (i & 63);
            }
        }
        self.n.push(Info { node, w, vars, tab, tt });
        self.memo.push((0, 0));
        self.map.insert(key, e);
        e
    }
    fn at(&self, e: E, i: usize) -> u64 {
        let x = &self.n[e as usize];
        match &x.node {
            Node::Const(c) => *c,
            _ => x.tab.as_ref().unwrap()[i],
        }
    }
    fn eval1(&self, n: &Node, w: u8, i: usize) -> u64 {
        match n {
            Node::Nil => 0,
            Node::Const(c) => *c,
            Node::Var(_) => i as u64,
            Node::Tab(_, t) => t[i],
            Node::Bin(op, a, b) => bin_c(*op, w as u32, self.at(*a, i), self.at(*b, i)),
            Node::Cmp(p, a, b) => cmp_c(*p, self.w(*a) as u32, self.at(*a, i), self.at(*b, i)) as u64,
            Node::Zext(a) => self.at(*a, i),
            Node::Sext(a) => sx(self.at(*a, i), self.w(*a) as u32) as u64 & mask(w),
            Node::Extract(a, lo) => (self.at(*a, i) >> lo) & mask(w),
            Node::Bytes(v) => v.iter().enumerate().fold(0, |m, (k, x)| m | self.at(*x, i) << (8 * k)),
            Node::Ite(c, a, b) => {
                if self.at(*c, i) != 0 {
                    self.at(*a, i)
                } else {
                    self.at(*b, i)
                }
            }
        }
    }
    /// Value under a full assignment.
    pub fn eval(&mut self, e: E, m: &[u8]) -> u64 {
        self.epoch += 1;
        self.memo.resize(self.n.len(), (0, 0));
        self.ev(e, m)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u64 {
        let info = &self.n[e as usize];
        if let Node::Const(c) = info.node {
            return c;
        }
        if let Some(t) = &info.tab {
            return t[m[info.vars.trailing_zeros() as usize] as usize];
        }
        if self.memo[e as usize].0 == self.epoch {
            return self.memo[e as usize].1;
        }
        let w = info.w;
        let node = info.node.clone();
        let r = match node {
            Node::Nil | Node::Const(_) | Node::Var(_) | Node::Tab(..) => unreachable!(),
            Node::Bin(op, a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                bin_c(op, w as u32, x, y)
            }
            Node::Cmp(p, a, b) => {
                let (x, y) = (self.ev(a, m), self.ev(b, m));
                cmp_c(p, self.w(a) as u32, x, y) as u64
            }
            Node::Zext(a) => self.ev(a, m),
            Node::Sext(a) => sx(self.ev(a, m), self.w(a) as u32) as u64 & mask(w),
            Node::Extract(a, lo) => (self.ev(a, m) >> lo) & mask(w),
            Node::Bytes(v) => {
                let mut r = 0;
                for (k, x) in v.iter().enumerate() {
                    r |= self.ev(*x, m) << (8 * k);
                }
                r
            }
            Node::Ite(c, a, b) => {
                if self.ev(c, m) != 0 {
                    self.ev(a, m)
                } else {
                    self.ev(b, m)
                }
            }
        };
        self.memo[e as usize] = (self.epoch, r);
        r
    }

    pub fn not(&mut self, a: E) -> E {
        if let Some(c) = self.cval(a) {
            return self.c(1 - c, 1);
        }
        match self.n[a as usize].node {
            Node::Cmp(p, x, y) if self.vars(a).count_ones() > 1 => {
                let q = match p {
                    Pred::Eq => Pred::Ne,
                    Pred::Ne => Pred::Eq,
                    Pred::Ult => Pred::Uge,
                    Pred::Ule => Pred::Ugt,
                    Pred::Ugt => Pred::Ule,
                    Pred::Uge => Pred::Ult,
                    Pred::Slt => Pred::Sge,
                    Pred::Sle => Pred::Sgt,
                    Pred::Sgt => Pred::Sle,
                    Pred::Sge => Pred::Slt,
                };
                return self.raw(Node::Cmp(q, x, y), 1);
            }
            Node::Bin(Bin::Xor, x, y) if self.cval(y) == Some(1) => return x,
            _ => {}
        }
        let one = self.c(1, 1);
        self.raw(Node::Bin(Bin::Xor, a, one), 1)
    }
    /// Operand of a boolean negation, if `a` is one.
    pub fn as_not(&self, a: E) -> Option<E> {
        match self.n[a as usize].node {
            Node::Bin(Bin::Xor, x, y) if self.w(a) == 1 && self.cval(y) == Some(1) => Some(x),
            _ => None,
        }
    }
    pub fn bin(&mut self, op: Bin, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = bin_c(op, w as u32, x, y);
            return self.c(r, w);
        }
        let commut = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        if commut && (ca.is_some() || (cb.is_none() && a > b)) {
            return self.bin_n(op, b, a, w);
        }
        self.bin_n(op, a, b, w)
    }
    fn bin_n(&mut self, op: Bin, a: E, b: E, w: u8) -> E {
        let cb = self.cval(b);
        if let Some(c) = cb {
            match op {
                Bin::Add | Bin::Sub | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr if c == 0 => return a,
                Bin::And if c == mask(w) => return a,
                Bin::And | Bin::Mul if c == 0 => return b,
                Bin::Mul | Bin::UDiv if c == 1 => return a,
                Bin::Or if c == mask(w) => return b,
                _ => {}
            }
            if op == Bin::Xor && w == 1 {
                return self.not(a);
            }
            // constant chains
            if let Node::Bin(op2, x, y) = self.n[a as usize].node {
                if let Some(c2) = self.cval(y) {
                    if op == op2 && matches!(op, Bin::Add | Bin::And | Bin::Or | Bin::Xor) {
                        let k = bin_c(op, w as u32, c, c2);
                        let k = self.c(k, w);
                        return self.bin(op, x, k);
                    }
                }
            }
            if op == Bin::Sub {
                let k = self.c(0u64.wrapping_sub(c), w);
                return self.bin(Bin::Add, a, k);
            }
        }
        if a == b {
            match op {
                Bin::And | Bin::Or => return a,
                Bin::Xor | Bin::Sub => return self.c(0, w),
                _ => {}
            }
        }
        if w == 1 && matches!(op, Bin::And | Bin::Or) {
            if self.as_not(a) == Some(b) || self.as_not(b) == Some(a) {
                return self.c((op == Bin::Or) as u64, 1);
            }
        }
        // byte-wise structure (only useful when several variables are involved)
        if (self.vars(a) | self.vars(b)).count_ones() > 1 && w > 8 && w % 8 == 0 {
            if matches!(op, Bin::And | Bin::Or | Bin::Xor) {
                if let (Some(x), Some(y)) = (self.as_bytes(a), self.as_bytes(b)) {
                    let v: Vec<E> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(op, *p, *q)).collect();
                    return self.bytes(v);
                }
            }
            if let Some(c) = cb {
                if (op == Bin::Shl || op == Bin::LShr) && c % 8 == 0 && c < w as u64 {
                    if let Some(x) = self.as_bytes(a) {
                        let k = (c / 8) as usize;
                        let z = self.c(0, 8);
                        let n = x.len();
                        let v: Vec<E> = (0..n)
                            .map(|i| {
                                if op == Bin::Shl {
                                    if i >= k {
                                        x[i - k]
                                    } else {
                                        z
                                    }
                                } else if i + k < n {
                                    x[i + k]
                                } else {
                                    z
                                }
                            })
                            .collect();
                        return self.bytes(v);
                    }
                }
            }
        }
        if op == Bin::Shl && w == 1 {
            // poison otherwise
        }
        self.raw(Node::Bin(op, a, b), w)
    }
    /// Decompose into bytes when that is structurally free.
    fn as_bytes(&mut self, a: E) -> Option<Vec<E>> {
        let w = self.w(a);
        if w % 8 != 0 {
            return None;
        }
        if w == 8 {
            return Some(vec![a]);
        }
        match self.n[a as usize].node.clone() {
            Node::Const(c) => Some((0..w / 8).map(|i| self.c(c >> (8 * i), 8)).collect()),
            Node::Bytes(v) => Some(v.to_vec()),
            Node::Zext(x) if self.w(x) <= 8 => {
                let x8 = self.zext(x, 8);
                let z = self.c(0, 8);
                let mut v = vec![x8];
                v.resize(w as usize / 8, z);
                Some(v)
            }
            Node::Zext(x) if self.w(x) % 8 == 0 => {
                let mut v = self.as_bytes(x)?;
                let z = self.c(0, 8);
                v.resize(w as usize / 8, z);
                Some(v)
            }
            _ => {
                if self.n[a as usize].tab.is_some() {
                    Some((0..w / 8).map(|i| self.extract(a, i * 8, 8)).collect())
                } else {
                    None
                }
            }
        }
    }
    pub fn bytes(&mut self, v: Vec<E>) -> E {
        let w = (v.len() * 8) as u8;
        if v.len() == 1 {
            return v[0];
        }
        if v.iter().all(|x| self.cval(*x).is_some()) {
            let mut r = 0;
            for (i, x) in v.iter().enumerate() {
                r |= self.cval(*x).unwrap() << (8 * i);
            }
            return self.c(r, w);
        }
        // contiguous extracts of one expression
        if let Node::Extract(src, 0) = self.n[v[0] as usize].node {
            if self.w(src) == w
                && v.iter().enumerate().all(|(i, x)| matches!(self.n[*x as usize].node, Node::Extract(s, lo) if s == src && lo as usize == 8 * i && self.w(*x) == 8))
            {
                return src;
            }
        }
        self.raw(Node::Bytes(v.into_boxed_slice()), w)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.n[a as usize].node {
            Node::Const(c) => return self.c(c, w),
            Node::Zext(x) => return self.zext(x, w),
            _ => {}
        }
        if self.vars(a).count_ones() > 1 {
            if let Node::Bytes(v) = &self.n[a as usize].node {
                let mut v = v.to_vec();
                let z = self.c(0, 8);
                v.resize(w as usize / 8, z);
                return self.bytes(v);
            }
        }
        self.raw(Node::Zext(a), w)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            return self.c(sx(c, wa as u32) as u64, w);
        }
        self.raw(Node::Sext(a), w)
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        match self.n[a as usize].node.clone() {
            Node::Const(c) => return self.c(c >> lo, w),
            Node::Zext(x) | Node::Sext(x) if lo + w <= self.w(x) => return self.extract(x, lo, w),
            Node::Zext(x) if lo >= self.w(x) => return self.c(0, w),
            Node::Zext(x) if lo == 0 && w > self.w(x) => return self.zext(x, w),
            Node::Extract(x, l2) => return self.extract(x, lo + l2, w),
            Node::Bytes(v) if lo % 8 == 0 && w % 8 == 0 => {
                let v = v[(lo / 8) as usize..((lo + w) / 8) as usize].to_vec();
                return self.bytes(v);
            }
            Node::Bytes(v) if lo / 8 == (lo + w - 1) / 8 => return self.extract(v[(lo / 8) as usize], lo % 8, w),
            Node::Bin(op, x, y) if matches!(op, Bin::And | Bin::Or | Bin::Xor) || (lo == 0 && matches!(op, Bin::Add | Bin::Sub | Bin::Mul)) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.bin(op, x, y);
            }
            Node::Ite(c, x, y) => {
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.raw(Node::Extract(a, lo), w)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(x) = self.cval(c) {
            return if x != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if self.w(a) == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Bin::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Bin::And, n, b);
                }
                (_, Some(0)) => return self.bin(Bin::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Bin::Or, n, a);
                }
                _ => {}
            }
        }
        let w = self.w(a);
        self.raw(Node::Ite(c, a, b), w)
    }
    pub fn tabnode(&mut self, var: u8, w: u8, t: Vec<u64>) -> E {
        self.raw(Node::Tab(var, t.into_boxed_slice()), w)
    }
    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(matches!(p, Pred::Eq | Pred::Ule | Pred::Uge | Pred::Sle | Pred::Sge) as u64, 1);
        }
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            return self.c(cmp_c(p, w as u32, x, y) as u64, 1);
        }
        // constants to the right
        if self.cval(a).is_some() {
            let q = match p {
                Pred::Eq | Pred::Ne => p,
                Pred::Ult => Pred::Ugt,
                Pred::Ule => Pred::Uge,
                Pred::Ugt => Pred::Ult,
                Pred::Uge => Pred::Ule,
                Pred::Slt => Pred::Sgt,
                Pred::Sle => Pred::Sge,
                Pred::Sgt => Pred::Slt,
                Pred::Sge => Pred::Sle,
            };
            return self.cmp(q, b, a);
        }
        let multi = (self.vars(a) | self.vars(b)).count_ones() > 1;
        if multi {
            if p == Pred::Ne {
                let e = self.cmp(Pred::Eq, a, b);
                return self.not(e);
            }
            if p == Pred::Eq {
                return self.eq(a, b);
            }
            if let Some(c) = self.cval(b) {
                match p {
                    Pred::Ult if c == 1 => {
                        let z = self.c(0, w);
                        return self.eq(a, z);
                    }
                    Pred::Ugt if c == 0 => {
                        let e = self.eq(a, b);
                        return self.not(e);
                    }
                    _ => {}
                }
                // zero-extended operand against a constant
                if let Node::Zext(x) = self.n[a as usize].node {
                    let wx = self.w(x);
                    let unsigned = matches!(p, Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge);
                    let signed = matches!(p, Pred::Slt | Pred::Sle | Pred::Sgt | Pred::Sge);
                    if (unsigned || (signed && c >> (w - 1) == 0)) && c <= mask(wx) {
                        let k = self.c(c, wx);
                        let q = match p {
                            Pred::Slt => Pred::Ult,
                            Pred::Sle => Pred::Ule,
                            Pred::Sgt => Pred::Ugt,
                            Pred::Sge => Pred::Uge,
                            _ => p,
                        };
                        return self.cmp(q, x, k);
                    }
                    if unsigned && c > mask(wx) {
                        return self.c(matches!(p, Pred::Ult | Pred::Ule) as u64, 1);
                    }
                }
                // sign bit of a byte vector
                if let Node::Bytes(v) = self.n[a as usize].node.clone() {
                    let top = *v.last().unwrap();
                    if (p == Pred::Slt && c == 0) || (p == Pred::Sgt && c == mask(w)) {
                        let z = self.c(if c == 0 { 0 } else { 0xff }, 8);
                        return self.cmp(p, top, z);
                    }
                }
            }
        }
        self.raw(Node::Cmp(p, a, b), 1)
    }
    fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(1, 1);
        }
        let cb = self.cval(b);
        if w == 1 {
            if let Some(c) = cb {
                return if c == 1 { a } else { self.not(a) };
            }
            let x = self.raw(Node::Bin(Bin::Xor, a, b), 1);
            return self.not(x);
        }
        if let Some(c) = cb {
            match self.n[a as usize].node.clone() {
                Node::Zext(x) => {
                    let wx = self.w(x);
                    if c > mask(wx) {
                        return self.c(0, 1);
                    }
                    let k = self.c(c, wx);
                    return self.cmp(Pred::Eq, x, k);
                }
                Node::Bin(Bin::Or, x, y) if c == 0 => {
                    let p = self.cmp(Pred::Eq, x, b);
                    let q = self.cmp(Pred::Eq, y, b);
                    return self.bin(Bin::And, p, q);
                }
                Node::Bin(Bin::Xor, x, y) => {
                    if let Some(k) = self.cval(y) {
                        let k = self.c(k ^ c, w);
                        return self.cmp(Pred::Eq, x, k);
                    }
                    if c == 0 {
                        return self.cmp(Pred::Eq, x, y);
                    }
                }
                Node::Bin(Bin::Add, x, y) => {
                    if let Some(k) = self.cval(y) {
                        let k = self.c(c.wrapping_sub(k), w);
                        return self.cmp(Pred::Eq, x, k);
                    }
                }
                Node::Bin(Bin::Sub, x, y) if c == 0 => return self.cmp(Pred::Eq, x, y),
                Node::Ite(k, x, y) => {
                    let x = self.cmp(Pred::Eq, x, b);
                    let y = self.cmp(Pred::Eq, y, b);
                    return self.ite(k, x, y);
                }
                _ => {}
            }
        }
        if w > 8 {
            if let (Some(x), Some(y)) = (self.as_bytes(a), self.as_bytes(b)) {
                let mut r = self.c(1, 1);
                for (p, q) in x.iter().zip(y.iter()) {
                    let e = self.cmp(Pred::Eq, *p, *q);
                    r = self.bin(Bin::And, r, e);
                }
                return r;
            }
        }
        let (x, y) = if cb.is_some() || a < b { (a, b) } else { (b, a) };
        self.raw(Node::Cmp(Pred::Eq, x, y), 1)
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let i = &self.n[e as usize];
        if d == 0 {
            return format!("#{}", e);
        }
        match &i.node {
            Node::Nil => "nil".into(),
            Node::Const(c) => format!("{:#x}", c),
            Node::Var(v) => format!("v{}", v),
            Node::Tab(v, _) => format!("tab(v{})", v),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            Node::Cmp(o, a, b) => format!("({:?} {} {})", o, self.show(*a, d - 1), self.show(*b, d - 1)),
            Node::Zext(a) => format!("z{}({})", i.w, self.show(*a, d - 1)),
            Node::Sext(a) => format!("s{}({})", i.w, self.show(*a, d - 1)),
            Node::Extract(a, l) => format!("x{}+{}({})", l, i.w, self.show(*a, d - 1)),
            Node::Bytes(v) => format!("[{}]", v.iter().map(|x| self.show(*x, d - 1)).collect::<Vec<_>>().join(",")),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, d - 1), self.show(*a, d - 1), self.show(*b, d - 1)),
        }
    }
}

pub fn dom_full() -> Dom {
    [!0; 4]
}
#[inline]
pub fn dom_has(d: &Dom, i: usize) -> bool {
    d[i >> 6] >> (i & 63) & 1 != 0
}
pub fn dom_count(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
pub fn dom_first(d: &Dom) -> Option<u8> {
    for (k, x) in d.iter().enumerate() {
        if *x != 0 {
            return Some((k as u32 * 64 + x.trailing_zeros()) as u8);
        }
    }
    None
}
pub fn dom_iter(d: &Dom) -> Vec<u8> {
    (0..256usize).filter(|i| dom_has(d, *i)).map(|i| i as u8).collect()
}
