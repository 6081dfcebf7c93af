//! Symbolic executor over the parsed LLVM module: explores every path of an entry function for a symbolic input.
use crate::expr::*;
use crate::ir::*;
use crate::z3::Z3;
use std::rc::Rc;
 

pub const HEAP_BASE: u64 = 0x1000_0000;
pub const STACK_BASE: u64 = 0x4000_0000;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<(E, u8)>>,
}

#[derive(Clone)]
struct Frame {
    func: u32,
    pc: u32,
    dst: Option<u32>,
    regs: Vec<Val>,
    slab: Rc<Obj>,
}

#[derive(Clone)]
pub struct State {
    cur: Frame,
    stack: Vec<Rc<Frame>>,
    heap: Vec<Option<Rc<Obj>>>,
    globs: FxMap<u32, Rc<Obj>>,
    doms: Rc<Vec<Dom>>,
    cons: Rc<Vec<E>>,
    model: Vec<u8>,
    steps: u64,
    out: Rc<Vec<(E, u8)>>,
    covers: u64,
}

pub enum Stop {
    Fork(E),
    End,
    Drop,
    Bad(String, String),
    Err(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
pub enum Seg {
    Lit(Vec<u8>),
    Sym(u8, Dom),
}

#[derive(Clone, Debug)]
pub struct Template {
    pub name: String,
    pub entry: String,
    pub segs: Vec<Seg>,
    pub max_steps: u64,
    pub max_depth: usize,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub dropped: u64,
    pub instrs: u64,
    pub forks: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub maxdepth: usize,
    pub maxsteps: u64,
    pub maxinput: Vec<u8>,
    pub violations: Vec<(String, String, Vec<u8>, u64)>,
    pub samples: Vec<(Vec<u8>, u64)>,
    pub covers: Vec<u64>,
    pub error: Option<String>,
    pub timeout: bool,
    pub live: usize,
}

pub struct Engine {
    m: Rc<Module>,
    gobjs: Vec<Rc<Obj>>,
    pub pool: Pool,
    pub z3: Z3,
    pub cov: Vec<Vec<u8>>,
    tmpl: Vec<Seg>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u16)]
enum K {
    Nop,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Memcpy,
    Memset,
    Ctpop,
    Ctlz,
    Cttz,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Fshl,
    Fshr,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    Abs,
    Bswap,
    Ident,
    Zero,
    Bcmp,
    Memcmp,
    Ucmp,
    Scmp8,
    Scmp16,
    Scmp32,
    Scmp64,
    PtrMask,
    SAddSat,
    SSubSat,
    RedUMax,
    RedUMin,
    RedSMax,
    RedSMin,
    RedMul,
    Trap,
    SymAssert,
    SymAssume,
    SymCover,
    SymOut,
    SymPanic,
    SymIsSym,
    SymReset,
    ObjSize,
    Bitrev,
    RedOr,
    RedAnd,
    RedAdd,
    RedXor,
    Unknown,
}
const KS: [K; 58] = [
    K::Nop, K::Alloc, K::AllocZ, K::Dealloc, K::Realloc, K::Memcpy, K::Memset, K::Ctpop, K::Ctlz, K::Cttz, K::UAddO, K::USubO, K::UMulO, K::SAddO, K::SSubO,
    K::SMulO, K::Fshl, K::Fshr, K::UMax, K::UMin, K::SMax, K::SMin, K::USubSat, K::UAddSat, K::Abs, K::Bswap, K::Ident, K::Zero, K::Bcmp, K::Memcmp, K::Ucmp, K::Scmp8, K::Scmp16, K::Scmp32, K::Scmp64,
    K::PtrMask, K::SAddSat, K::SSubSat, K::RedUMax, K::RedUMin, K::RedSMax, K::RedSMin, K::RedMul,
    K::Trap, K::SymAssert, K::SymAssume, K::SymCover, K::SymOut, K::SymPanic, K::SymIsSym, K::SymReset, K::ObjSize, K::Bitrev, K::RedOr, K::RedAnd,
    K::RedAdd, K::RedXor, K::Unknown,
];

fn kind(n: &str) -> K {
    let st = |p: &str| n.starts_with(p);
    if n.ends_with("___rust_alloc") || n == "__rust_alloc" {
        K::Alloc
    } else if n.ends_with("__rust_alloc_zeroed") {
        K::AllocZ
    } else if n.ends_with("__rust_dealloc") {
        K::Dealloc
    } else if n.ends_with("__rust_realloc") {
        K::Realloc
    } else if n.contains("__rust_no_alloc_shim") || st("llvm.lifetime") || st("llvm.assume") || st("llvm.experimental.noalias") || st("llvm.dbg") || st("llvm.donothing") || st("llvm.prefetch") {
        K::Nop
    } else if st("llvm.memcpy") || st("llvm.memmove") || n == "memcpy" || n == "memmove" {
        K::Memcpy
    } else if st("llvm.memset") || n == "memset" {
        K::Memset
    } else if st("llvm.ctpop") {
        K::Ctpop
    } else if st("llvm.ctlz") {
        K::Ctlz
    } else if st("llvm.cttz") {
        K::Cttz
    } else if st("llvm.uadd.with.overflow") {
        K::UAddO
    } else if st("llvm.usub.with.overflow") {
        K::USubO
    } else if st("llvm.umul.with.overflow") {
        K::UMulO
    } else if st("llvm.sadd.with.overflow") {
        K::SAddO
    } else if st("llvm.ssub.with.overflow") {
        K::SSubO
    } else if st("llvm.smul.with.overflow") {
        K::SMulO
    } else if st("llvm.fshl") {
        K::Fshl
    } else if st("llvm.fshr") {
        K::Fshr
    } else if st("llvm.umax") {
        K::UMax
    } else if st("llvm.umin") {
        K::UMin
    } else if st("llvm.smax") {
        K::SMax
    } else if st("llvm.smin") {
        K::SMin
    } else if st("llvm.usub.sat") {
        K::USubSat
    } else if st("llvm.uadd.sat") {
        K::UAddSat
    } else if st("llvm.abs") {
        K::Abs
    } else if st("llvm.bswap") {
        K::Bswap
    } else if st("llvm.bitreverse") {
        K::Bitrev
    } else if st("llvm.vector.reduce.or.") {
        K::RedOr
    } else if st("llvm.vector.reduce.and.") {
        K::RedAnd
    } else if st("llvm.vector.reduce.add.") {
        K::RedAdd
    } else if st("llvm.vector.reduce.xor.") {
        K::RedXor
    } else if st("llvm.expect") || st("llvm.threadlocal.address") || st("llvm.launder") || st("llvm.strip.invariant") {
        K::Ident
    } else if st("llvm.ptrmask") {
        K::PtrMask
    } else if st("llvm.sadd.sat") {
        K::SAddSat
    } else if st("llvm.ssub.sat") {
        K::SSubSat
    } else if st("llvm.vector.reduce.umax.") {
        K::RedUMax
    } else if st("llvm.vector.reduce.umin.") {
        K::RedUMin
    } else if st("llvm.vector.reduce.smax.") {
        K::RedSMax
    } else if st("llvm.vector.reduce.smin.") {
        K::RedSMin
    } else if st("llvm.vector.reduce.mul.") {
        K::RedMul
    } else if n == "__cxa_thread_atexit_impl" {
        // destructors of thread-local values run when the thread ends, after every observation
        K::Zero
    } else if n == "bcmp" {
        K::Bcmp
    } else if n == "memcmp" {
        K::Memcmp
    } else if st("llvm.ucmp") {
        K::Ucmp
    } else if st("llvm.scmp") && n.ends_with(".i8") {
        K::Scmp8
    } else if st("llvm.scmp") && n.ends_with(".i16") {
        K::Scmp16
    } else if st("llvm.scmp") && n.ends_with(".i32") {
        K::Scmp32
    } else if st("llvm.scmp") && n.ends_with(".i64") {
        K::Scmp64
    } else if st("llvm.trap") || n == "abort" {
        K::Trap
    } else if n == "__sym_assert" {
        K::SymAssert
    } else if n == "__sym_assume" {
        K::SymAssume
    } else if n == "__sym_cover" {
        K::SymCover
    } else if n == "__sym_out" {
        K::SymOut
    } else if n == "__sym_panic" {
        K::SymPanic
    } else if n == "__sym_is_symbolic" {
        K::SymIsSym
    } else if n == "__sym_reset" {
        K::SymReset
    } else {
        K::Unknown
    }
}

/// Resolve external callees and merge identical edges of switches.
pub fn prepare(m: &mut Module) -> Vec<String> {
    let mut unknown = vec![];
    for f in m.funcs.iter_mut() {
        let edges = &f.edges;
        let mut canon: Vec<u32> = (0..edges.len() as u32).collect();
        let mut seen: std::collections::HashMap<String, u32> = Default::default();
        for (i, e) in edges.iter().enumerate() {
            let k = format!("{:?}", e);
            canon[i] = *seen.entry(k).or_insert(i as u32);
        }
        for ins in f.code.iter_mut() {
            match ins {
                Ins::Switch(_, _, d, v) => {
                    *d = canon[*d as usize];
                    for x in v.iter_mut() {
                        x.1 = canon[x.1 as usize];
                    }
                }
                Ins::Call(_, c, _, _) => {
                    if let Callee::Ext(n) = c {
                        let k = kind(n);
                        if k == K::Unknown {
                            unknown.push(n.clone());
                        } else {
                            *c = Callee::In(k as u16);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    unknown.sort();
    unknown.dedup();
    unknown
}

impl Obj {
    fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None }
    }
}

const MAXALLOC: u64 = 1 << 26;

impl Engine {
    pub fn new(m: Rc<Module>) -> Engine {
        let gobjs = m.globals.iter().map(|g| Rc::new(Obj { data: g.bytes.clone(), sym: None })).collect();
        let cov = m.funcs.iter().map(|f| vec![0u8; f.edges.len() + 1]).collect();
        Engine { m, gobjs, pool: Pool::new(), z3: Z3::new(), cov, tmpl: vec![] }
    }
    #[inline]
    fn norm(&self, e: E) -> Val {
        match self.pool.cval(e) {
            Some(c) => Val::C(c),
            None => Val::S(e),
        }
    }
    #[inline]
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.pool.c(*c, w as u8),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    // ---------- deciding ----------
    fn effvars(&self, st: &State, e: E) -> u64 {
        let mut m = self.pool.vars(e);
        let mut r = 0;
        while m != 0 {
            let i = m.trailing_zeros();
            m &= m - 1;
            if dom_count(&st.doms[i as usize]) > 1 {
                r |= 1 << i;
            }
        }
        r
    }
    /// Truth set of a boolean over its only undetermined variable (all others are fixed by the path).
    fn efftable(&mut self, st: &State, e: E, y: usize) -> Dom {
        let mut yes = [0u64; 4];
        let mut m = st.model.clone();
        for b in dom_iter(&st.doms[y]) {
            m[y] = b;
            if self.pool.eval(e, &m) != 0 {
                yes[b as usize >> 6] |= 1 << (b & 63);
            }
        }
        yes
    }
    fn decide(&mut self, st: &State, e: E) -> Option<bool> {
        if let Some(c) = self.pool.cval(e) {
            return Some(c != 0);
        }
        let info = &self.pool.n[e as usize];
        if info.tab.is_some() {
            let v = info.vars.trailing_zeros() as usize;
            let d = &st.doms[v];
            let t = &info.tt;
            let y = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            if y == *d {
                return Some(true);
            }
            if y == [0; 4] {
                return Some(false);
            }
            return None;
        }
        match info.node {
            Node::Bin(Bin::And, a, b) => {
                let x = self.decide(st, a);
                if x == Some(false) {
                    return x;
                }
                let y = self.decide(st, b);
                if y == Some(false) {
                    return y;
                }
                if x == Some(true) && y == Some(true) {
                    return x;
                }
            }
            Node::Bin(Bin::Or, a, b) => {
                let x = self.decide(st, a);
                if x == Some(true) {
                    return x;
                }
                let y = self.decide(st, b);
                if y == Some(true) {
                    return y;
                }
                if x == Some(false) && y == Some(false) {
                    return x;
                }
            }
            Node::Bin(Bin::Xor, a, b) => {
                if let (Some(x), Some(y)) = (self.decide(st, a), self.decide(st, b)) {
                    return Some(x != y);
                }
            }
            Node::Ite(c, a, b) => match self.decide(st, c) {
                Some(true) => return self.decide(st, a),
                Some(false) => return self.decide(st, b),
                None => {}
            },
            _ => {}
        }
        for &c in st.cons.iter() {
            if c == e {
                return Some(true);
            }
        }
        let ev = self.effvars(st, e);
        if ev == 0 {
            return Some(self.pool.eval(e, &st.model) != 0);
        }
        if ev & (ev - 1) == 0 {
            let y = ev.trailing_zeros() as usize;
            let yes = self.efftable(st, e, y);
            if yes == st.doms[y] {
                return Some(true);
            }
            if yes == [0; 4] {
                return Some(false);
            }
        } else {
            let n = self.pool.not(e);
            for &c in st.cons.iter() {
                if c == n {
                    return Some(false);
                }
            }
        }
        None
    }
    fn truth(&mut self, st: &State, v: &Val) -> R<bool> {
        match v {
            Val::C(c) => Ok(*c != 0),
            Val::S(e) => match self.decide(st, *e) {
                Some(b) => Ok(b),
                None => Err(Stop::Fork(*e)),
            },
            Val::A(_) => Err(Stop::Err("aggregate condition".into())),
        }
    }
    /// A concrete value for an operand; forks over its possible values.
    fn conc(&mut self, st: &State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => {
                let x = self.pool.eval(*e, &st.model);
                let w = self.pool.w(*e);
                let k = self.pool.c(x, w);
                let q = self.pool.cmp(Pred::Eq, *e, k);
                match self.decide(st, q) {
                    Some(true) => Ok(x),
                    Some(false) => Err(Stop::Err("model inconsistent with path".into())),
                    None => Err(Stop::Fork(q)),
                }
            }
            Val::A(_) => Err(Stop::Err("aggregate value".into())),
        }
    }
    fn atom(&mut self, st: &State, e: E) -> E {
        if self.pool.tab(e).is_some() {
            return e;
        }
        let (x, y, z) = match self.pool.n[e as usize].node {
            Node::Bin(Bin::And, a, b) | Node::Bin(Bin::Or, a, b) | Node::Bin(Bin::Xor, a, b) => (a, b, 0),
            Node::Ite(c, a, b) => (c, a, b),
            _ => return e,
        };
        let mut first = None;
        for k in [x, y, z] {
            if k == 0 {
                continue;
            }
            if self.decide(st, k).is_none() {
                let a = self.atom(st, k);
                if self.pool.tab(a).is_some() {
                    return a;
                }
                if first.is_none() {
                    first = Some(a);
                }
            }
        }
        first.unwrap_or(e)
    }
    fn slice(&self, st: &State, vars: u64) -> (u64, Vec<E>) {
        let mut vs = vars;
        let mut used = vec![false; st.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in st.cons.iter().enumerate() {
                if !used[i] && self.pool.vars(*c) & vs != 0 {
                    used[i] = true;
                    vs |= self.pool.vars(*c);
                    out.push(*c);
                    ch = true;
                }
            }
            if !ch {
                return (vs, out);
            }
        }
    }
    fn domlist(&self, st: &State, vs: u64) -> Vec<(u8, Dom)> {
        let mut m = vs;
        let mut v = vec![];
        while m != 0 {
            let i = m.trailing_zeros() as usize;
            m &= m - 1;
            v.push((i as u8, st.doms[i]));
        }
        v
    }
    /// Split the state on an undecided boolean. Returns the (up to two) feasible successors, model side first.
    fn split(&mut self, st: State, e: E) -> Result<Vec<State>, String> {
        let a = self.atom(&st, e);
        let ev = self.effvars(&st, a);
        let mside = self.pool.eval(a, &st.model) != 0;
        let mut res = vec![];
        if ev != 0 && ev & (ev - 1) == 0 {
            let y = ev.trailing_zeros() as usize;
            let d = st.doms[y];
            let yes = if self.pool.tab(a).is_some() {
                let t = self.pool.n[a as usize].tt;
                [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]]
            } else {
                self.efftable(&st, a, y)
            };
            let no = [d[0] & !yes[0], d[1] & !yes[1], d[2] & !yes[2], d[3] & !yes[3]];
            if self.pool.tab(a).is_some() {
                self.z3.prove_split(&self.pool, y as u8, &d, a, &yes);
            }
            let (vs, cs) = self.slice(&st, 1 << y);
            for side in [mside, !mside] {
                let nd = if side { yes } else { no };
                if nd == [0; 4] {
                    continue;
                }
                let mut s2 = st.clone();
                Rc::make_mut(&mut s2.doms)[y] = nd;
                if side != mside {
                    if cs.is_empty() {
                        s2.model[y] = dom_first(&nd).unwrap();
                    } else {
                        let dl = self.domlist(&s2, vs);
                        match self.z3.solve(&self.pool, &dl, &cs) {
                            Some(m) => {
                                for (v, x) in m {
                                    s2.model[v as usize] = x;
                                }
                            }
                            None => continue,
                        }
                    }
                }
                res.push(s2);
            }
        } else {
            let n = self.pool.not(a);
            let (vs, cs) = self.slice(&st, self.pool.vars(a));
            let dl = self.domlist(&st, vs);
            for side in [mside, !mside] {
                let c = if side { a } else { n };
                let mut s2 = st.clone();
                Rc::make_mut(&mut s2.cons).push(c);
                if side != mside {
                    let mut c2 = cs.clone();
                    c2.push(c);
                    match self.z3.solve(&self.pool, &dl, &c2) {
                        Some(m) => {
                            for (v, x) in m {
                                s2.model[v as usize] = x;
                            }
                        }
                        None => continue,
                    }
                }
                res.push(s2);
            }
        }
        if let Some(x) = &self.z3.err {
            return Err(x.clone());
        }
        Ok(res)
    }
    // ---------- memory ----------
    fn obj<'a>(&'a self, st: &'a State, id: u64) -> Option<&'a Obj> {
        if id >= FN_TAG {
            None
        } else if id >= STACK_BASE {
            let d = (id - STACK_BASE) as usize;
            if d == st.stack.len() {
                Some(&st.cur.slab)
            } else {
                st.stack.get(d).map(|f| &*f.slab)
            }
        } else if id >= HEAP_BASE {
            st.heap.get((id - HEAP_BASE) as usize).and_then(|o| o.as_deref())
        } else if id >= GLOBAL_BASE {
            let g = (id - GLOBAL_BASE) as usize;
            if let Some(o) = st.globs.get(&(g as u32)) {
                return Some(o);
            }
            if g < self.gobjs.len() && !self.m.globals[g].external {
                Some(&self.gobjs[g])
            } else {
                None
            }
        } else {
            None
        }
    }
    fn obj_mut<'a>(&'a self, st: &'a mut State, id: u64) -> Option<&'a mut Obj> {
        if id >= FN_TAG {
            None
        } else if id >= STACK_BASE {
            let d = (id - STACK_BASE) as usize;
            if d == st.stack.len() {
                Some(Rc::make_mut(&mut st.cur.slab))
            } else {
                st.stack.get_mut(d).map(|f| Rc::make_mut(&mut Rc::make_mut(f).slab))
            }
        } else if id >= HEAP_BASE {
            st.heap.get_mut((id - HEAP_BASE) as usize).and_then(|o| o.as_mut()).map(Rc::make_mut)
        } else if id >= GLOBAL_BASE {
            let g = (id - GLOBAL_BASE) as usize;
            if g < self.gobjs.len() && !self.m.globals[g].constant && !self.m.globals[g].external {
                let o = st.globs.entry(g as u32).or_insert_with(|| self.gobjs[g].clone());
                Some(Rc::make_mut(o))
            } else {
                None
            }
        } else {
            None
        }
    }
    fn bad(&self, st: &State, what: &str) -> Stop {
        let f = &self.m.funcs[st.cur.func as usize];
        Stop::Bad("memory".into(), format!("{} in {}", what, f.name))
    }
    fn range<'a>(&'a self, st: &'a State, addr: u64, n: u64, what: &str) -> R<(&'a Obj, usize)> {
        let off = addr & 0xffff_ffff;
        match self.obj(st, addr >> 32) {
            Some(o) if off + n <= o.data.len() as u64 => Ok((o, off as usize)),
            _ => Err(self.bad(st, what)),
        }
    }
    fn load_scalar(&mut self, st: &State, addr: u64, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.range(st, addr, n as u64, "out-of-bounds or dangling read")?;
        let bytes = &o.data[off..off + n];
        let mut r = 0u64;
        for (i, b) in bytes.iter().enumerate() {
            r |= (*b as u64) << (8 * i);
        }
        let s = match &o.sym {
            None => return Ok(Val::C(r & mask(w as u8))),
            Some(s) => &s[off..off + n],
        };
        if s.iter().all(|x| x.0 == 0) {
            return Ok(Val::C(r & mask(w as u8)));
        }
        let e0 = s[0].0;
        if e0 != 0 && (self.pool.w(e0) as usize + 7) / 8 == n && s.iter().enumerate().all(|(i, x)| x.0 == e0 && x.1 as usize == i) {
            if self.pool.w(e0) as u32 == w {
                return Ok(Val::S(e0));
            }
            let e = if (self.pool.w(e0) as u32) < w { self.pool.zext(e0, w as u8) } else { self.pool.extract(e0, 0, w as u8) };
            return Ok(self.norm(e));
        }
        let sv: Vec<(E, u8)> = s.to_vec();
        let bv: Vec<u8> = bytes.to_vec();
        let parts: Vec<E> = (0..n).map(|i| self.byte_e(sv[i], bv[i])).collect();
        let e = self.pool.bytes(parts);
        let e = if w % 8 != 0 { self.pool.extract(e, 0, w as u8) } else { e };
        Ok(self.norm(e))
    }
    fn byte_e(&mut self, s: (E, u8), b: u8) -> E {
        if s.0 == 0 {
            return self.pool.c(b as u64, 8);
        }
        let w = self.pool.w(s.0);
        let lo = s.1 * 8;
        if w < 8 {
            return self.pool.zext(s.0, 8);
        }
        if lo + 8 > w {
            let x = self.pool.extract(s.0, lo, w - lo);
            return self.pool.zext(x, 8);
        }
        self.pool.extract(s.0, lo, 8)
    }
    fn load(&mut self, st: &State, addr: u64, sh: &Shape) -> R<Val> {
        match sh {
            Shape::I(w) => self.load_scalar(st, addr, *w),
            Shape::V(n, w) => {
                if *w % 8 != 0 {
                    // packed, as the integer of all bits
                    let t = *n as u32 * *w;
                    if t > 64 {
                        return Err(Stop::Err("bit vector load".into()));
                    }
                    let v = self.load_scalar(st, addr, t)?;
                    return self.bitcast(st, &Shape::I(t), sh, v);
                }
                let mut v = Vec::with_capacity(*n as usize);
                for i in 0..*n {
                    v.push(self.load_scalar(st, addr + i * (*w as u64 / 8), *w)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Shape::S(fs) => {
                let mut v = Vec::with_capacity(fs.len());
                for (o, s) in fs {
                    v.push(self.load(st, addr + o, s)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
        }
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        let e = match v {
            Val::C(_) => 0,
            Val::S(e) => *e,
            Val::A(_) => return Err(Stop::Err("store aggregate as scalar".into())),
        };
        let ok = match self.obj_mut(st, addr >> 32) {
            Some(o) if off + n <= o.data.len() => {
                match v {
                    Val::C(c) => {
                        for i in 0..n {
                            o.data[off + i] = (*c >> (8 * i)) as u8;
                        }
                        if let Some(s) = &mut o.sym {
                            for i in 0..n {
                                s[off + i] = (0, 0);
                            }
                        }
                    }
                    _ => {
                        let len = o.data.len();
                        let s = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                        for i in 0..n {
                            s[off + i] = (e, i as u8);
                        }
                    }
                }
                true
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(self.bad(st, "out-of-bounds, dangling or read-only write"))
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, sh: &Shape, v: &Val) -> R<()> {
        match (sh, v) {
            (Shape::I(w), v) => self.store_scalar(st, addr, *w, v),
            (Shape::V(n, w), Val::A(x)) => {
                if *w % 8 != 0 {
                    let t = *n as u32 * *w;
                    if t > 64 {
                        return Err(Stop::Err("bit vector store".into()));
                    }
                    let i = self.bitcast(st, sh, &Shape::I(t), v.clone())?;
                    return self.store_scalar(st, addr, t, &i);
                }
                for (i, y) in x.iter().enumerate() {
                    self.store_scalar(st, addr + i as u64 * (*w as u64 / 8), *w, y)?;
                }
                Ok(())
            }
            (Shape::S(fs), Val::A(x)) => {
                for ((o, s), y) in fs.iter().zip(x.iter()) {
                    self.store(st, addr + o, s, y)?;
                }
                Ok(())
            }
            _ => Err(Stop::Err("store shape".into())),
        }
    }
    fn copy_mem(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.range(st, src, n, "out-of-bounds or dangling copy source")?;
        let n = n as usize;
        let data = o.data[off..off + n].to_vec();
        let sym = match &o.sym {
            Some(s) if s[off..off + n].iter().any(|x| x.0 != 0) => Some(s[off..off + n].to_vec()),
            _ => None,
        };
        let doff = (dst & 0xffff_ffff) as usize;
        let ok = match self.obj_mut(st, dst >> 32) {
            Some(o) if doff + n <= o.data.len() => {
                o.data[doff..doff + n].copy_from_slice(&data);
                match sym {
                    Some(s) => {
                        let len = o.data.len();
                        let t = o.sym.get_or_insert_with(|| vec![(0, 0); len]);
                        t[doff..doff + n].copy_from_slice(&s);
                    }
                    None => {
                        if let Some(t) = &mut o.sym {
                            for x in &mut t[doff..doff + n] {
                                *x = (0, 0);
                            }
                        }
                    }
                }
                true
            }
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(self.bad(st, "out-of-bounds, dangling or read-only copy target"))
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > MAXALLOC {
            return Err(Stop::Bad("memory".into(), format!("allocation of {} bytes", n)));
        }
        let id = HEAP_BASE + st.heap.len() as u64;
        st.heap.push(Some(Rc::new(Obj::new(n as usize))));
        Ok(id << 32)
    }
    /// Bytes of a memory range as expressions (0 = concrete).
    fn view(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (o, off) = self.range(st, addr, n, "out-of-bounds or dangling comparison")?;
        let d = o.data[off..off + n as usize].to_vec();
        let s = o.sym.as_ref().map(|s| s[off..off + n as usize].to_vec());
        Ok((0..n as usize)
            .map(|i| self.byte_e(s.as_ref().map(|s| s[i]).unwrap_or((0, 0)), d[i]))
            .collect())
    }
    fn concrete_view<'a>(&'a self, st: &'a State, addr: u64, n: u64) -> Option<&'a [u8]> {
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj(st, addr >> 32)?;
        let n = n as usize;
        if off + n > o.data.len() {
            return None;
        }
        match &o.sym {
            Some(s) if s[off..off + n].iter().any(|x| x.0 != 0) => None,
            _ => Some(&o.data[off..off + n]),
        }
    }
    /// Load through a pointer that depends on one undetermined byte: a table over that byte.
    fn load_table(&mut self, st: &State, e: E, w: u32) -> Option<Val> {
        let ev = self.effvars(st, e);
        if ev == 0 || ev & (ev - 1) != 0 {
            return None;
        }
        let y = ev.trailing_zeros() as usize;
        let mut m = st.model.clone();
        let n = ((w + 7) / 8) as u64;
        let mut t = vec![0u64; 256];
        for b in dom_iter(&st.doms[y]) {
            m[y] = b;
            let a = self.pool.eval(e, &m);
            let s = self.concrete_view(st, a, n)?;
            let mut r = 0;
            for (i, x) in s.iter().enumerate() {
                r |= (*x as u64) << (8 * i);
            }
            t[b as usize] = r & mask(w as u8);
        }
        if w == 64 {
            return None;
        }
        let fill = t[st.model[y] as usize];
        for i in 0..256 {
            if !dom_has(&st.doms[y], i) {
                t[i] = fill;
            }
        }
        let e = self.pool.tabnode(y as u8, w as u8, t);
        Some(self.norm(e))
    }
    // ---------- running ----------
    #[inline]
    fn get(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.cur.regs[*r as usize].clone(),
            Opnd::C(c) => Val::C(*c),
            Opnd::A(i) => cst_val(&self.m.aggs[*i as usize]),
        }
    }
    fn push_call(&mut self, st: &mut State, fi: u32, args: Vec<Val>, dst: Option<u32>, maxdepth: usize) -> R<()> {
        let f = &self.m.funcs[fi as usize];
        let mut regs = args;
        if regs.len() != f.nparams as usize {
            return Err(Stop::Err(format!("arity of {}", f.name)));
        }
        regs.resize(f.nregs as usize, Val::C(0));
        let slab = Rc::new(Obj::new(f.slab as usize));
        let fr = Frame { func: fi, pc: 0, dst, regs, slab };
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Rc::new(old));
        let n = self.cov[fi as usize].len();
        self.cov[fi as usize][n - 1] = 1;
        if st.stack.len() > maxdepth {
            return Err(Stop::Bad("stack".into(), format!("call depth exceeds {}", maxdepth)));
        }
        Ok(())
    }
    fn take(&mut self, st: &mut State, edge: u32) {
        let m = self.m.clone();
        let f = &m.funcs[st.cur.func as usize];
        let e = &f.edges[edge as usize];
        self.cov[st.cur.func as usize][edge as usize] = 1;
        match e.phis.len() {
            0 => {}
            1 => {
                let v = self.get(st, &e.phis[0].1);
                st.cur.regs[e.phis[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e.phis.iter().map(|(_, o)| self.get(st, o)).collect();
                for ((r, _), v) in e.phis.iter().zip(vs) {
                    st.cur.regs[*r as usize] = v;
                }
            }
        }
        st.cur.pc = e.target;
    }
    /// 128-bit integers are pairs of 64-bit values, low half first.
    fn bin128(&mut self, op: Bin, x: &[Val], y: &[Val]) -> R<Val> {
        if let (Val::C(a), Val::C(b), Val::C(c), Val::C(d)) = (&x[0], &x[1], &y[0], &y[1]) {
            let (p, q) = ((*b as u128) << 64 | *a as u128, (*d as u128) << 64 | *c as u128);
            let r = match op {
                Bin::Add => p.wrapping_add(q),
                Bin::Sub => p.wrapping_sub(q),
                Bin::Mul => p.wrapping_mul(q),
                Bin::And => p & q,
                Bin::Or => p | q,
                Bin::Xor => p ^ q,
                Bin::Shl if q < 128 => p << q,
                Bin::LShr if q < 128 => p >> q,
                Bin::AShr if q < 128 => ((p as i128) >> q) as u128,
                Bin::UDiv if q != 0 => p / q,
                Bin::URem if q != 0 => p % q,
                _ => return Err(Stop::Err("128-bit operation".into())),
            };
            return Ok(Val::A(Rc::new(vec![Val::C(r as u64), Val::C((r >> 64) as u64)])));
        }
        let v = match (op, &y[0], &y[1]) {
            (Bin::And, ..) | (Bin::Or, ..) | (Bin::Xor, ..) => vec![self.bin(op, 64, &x[0], &y[0])?, self.bin(op, 64, &x[1], &y[1])?],
            (Bin::Add, ..) => {
                let l = self.bin(op, 64, &x[0], &y[0])?;
                let c = self.cmp(Pred::Ult, 64, &l, &x[0]);
                let c = self.cast(0, 1, 64, &c);
                let h = self.bin(op, 64, &x[1], &y[1])?;
                vec![l, self.bin(op, 64, &h, &c)?]
            }
            (Bin::Sub, ..) => {
                let l = self.bin(op, 64, &x[0], &y[0])?;
                let c = self.cmp(Pred::Ult, 64, &x[0], &y[0]);
                let c = self.cast(0, 1, 64, &c);
                let h = self.bin(op, 64, &x[1], &y[1])?;
                vec![l, self.bin(op, 64, &h, &c)?]
            }
            (Bin::Shl, Val::C(s), Val::C(0)) if *s < 128 => {
                if *s >= 64 {
                    vec![Val::C(0), self.bin(op, 64, &x[0], &Val::C(*s - 64))?]
                } else if *s == 0 {
                    x.to_vec()
                } else {
                    let a = self.bin(op, 64, &x[1], &Val::C(*s))?;
                    let b = self.bin(Bin::LShr, 64, &x[0], &Val::C(64 - *s))?;
                    vec![self.bin(op, 64, &x[0], &Val::C(*s))?, self.bin(Bin::Or, 64, &a, &b)?]
                }
            }
            (Bin::LShr, Val::C(s), Val::C(0)) if *s < 128 => {
                if *s >= 64 {
                    vec![self.bin(op, 64, &x[1], &Val::C(*s - 64))?, Val::C(0)]
                } else if *s == 0 {
                    x.to_vec()
                } else {
                    let a = self.bin(op, 64, &x[0], &Val::C(*s))?;
                    let b = self.bin(Bin::Shl, 64, &x[1], &Val::C(64 - *s))?;
                    vec![self.bin(Bin::Or, 64, &a, &b)?, self.bin(op, 64, &x[1], &Val::C(*s))?]
                }
            }
            (Bin::Shl, s, Val::C(0)) | (Bin::LShr, s, Val::C(0)) | (Bin::AShr, s, Val::C(0)) => {
                // shift by a symbolic amount: below 64, or 64 and more
                let m = self.bin(Bin::And, 64, s, &Val::C(63))?;
                let inv = self.bin(Bin::Xor, 64, &m, &Val::C(63))?;
                let big = self.cmp(Pred::Uge, 64, s, &Val::C(64));
                if op == Bin::Shl {
                    let a = self.bin(Bin::Shl, 64, &x[1], &m)?;
                    let b = self.bin(Bin::LShr, 64, &x[0], &Val::C(1))?;
                    let b = self.bin(Bin::LShr, 64, &b, &inv)?;
                    let h = self.bin(Bin::Or, 64, &a, &b)?;
                    let l = self.bin(Bin::Shl, 64, &x[0], &m)?;
                    vec![self.ite(&big, 64, Val::C(0), l.clone()), self.ite(&big, 64, l, h)]
                } else {
                    let a = self.bin(Bin::LShr, 64, &x[0], &m)?;
                    let b = self.bin(Bin::Shl, 64, &x[1], &Val::C(1))?;
                    let b = self.bin(Bin::Shl, 64, &b, &inv)?;
                    let l = self.bin(Bin::Or, 64, &a, &b)?;
                    let h = self.bin(op, 64, &x[1], &m)?;
                    let top = if op == Bin::AShr { self.bin(op, 64, &x[1], &Val::C(63))? } else { Val::C(0) };
                    vec![self.ite(&big, 64, h.clone(), l), self.ite(&big, 64, top, h)]
                }
            }
            (Bin::Mul, ..) => {
                let (l, h) = self.mul_full(&x[0], &y[0])?;
                let p = self.bin(op, 64, &x[0], &y[1])?;
                let q = self.bin(op, 64, &x[1], &y[0])?;
                let h = self.bin(Bin::Add, 64, &h, &p)?;
                vec![l, self.bin(Bin::Add, 64, &h, &q)?]
            }
            (Bin::UDiv, ..) | (Bin::URem, ..) if matches!((&x[1], &y[1]), (Val::C(0), Val::C(0))) => vec![self.bin(op, 64, &x[0], &y[0])?, Val::C(0)],
            _ => return Err(Stop::Err("128-bit operation".into())),
        };
        Ok(Val::A(Rc::new(v)))
    }
    /// Full product of two 64-bit values: low and high half.
    fn mul_full(&mut self, x: &Val, y: &Val) -> R<(Val, Val)> {
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let p = *a as u128 * *b as u128;
            return Ok((Val::C(p as u64), Val::C((p >> 64) as u64)));
        }
        let m = Val::C(0xffff_ffff);
        let t = Val::C(32);
        let (x0, x1) = (self.bin(Bin::And, 64, x, &m)?, self.bin(Bin::LShr, 64, x, &t)?);
        let (y0, y1) = (self.bin(Bin::And, 64, y, &m)?, self.bin(Bin::LShr, 64, y, &t)?);
        let p00 = self.bin(Bin::Mul, 64, &x0, &y0)?;
        let p01 = self.bin(Bin::Mul, 64, &x0, &y1)?;
        let p10 = self.bin(Bin::Mul, 64, &x1, &y0)?;
        let p11 = self.bin(Bin::Mul, 64, &x1, &y1)?;
        let c = self.bin(Bin::LShr, 64, &p00, &t)?;
        let mid = self.bin(Bin::Add, 64, &p10, &c)?;
        let midl = self.bin(Bin::And, 64, &mid, &m)?;
        let midh = self.bin(Bin::LShr, 64, &mid, &t)?;
        let n = self.bin(Bin::Add, 64, &p01, &midl)?;
        let nh = self.bin(Bin::LShr, 64, &n, &t)?;
        let h = self.bin(Bin::Add, 64, &p11, &midh)?;
        let h = self.bin(Bin::Add, 64, &h, &nh)?;
        Ok((self.bin(Bin::Mul, 64, x, y)?, h))
    }
    /// Whether the unsigned product of two 128-bit values overflows.
    fn mul_over128(&mut self, x: &[Val], y: &[Val]) -> R<Val> {
        let z = Val::C(0);
        let a = self.cmp(Pred::Ne, 64, &x[1], &z);
        let b = self.cmp(Pred::Ne, 64, &y[1], &z);
        let mut o = self.bin(Bin::And, 1, &a, &b)?;
        let (_, h) = self.mul_full(&x[0], &y[0])?;
        let (p, ph) = self.mul_full(&x[0], &y[1])?;
        let (q, qh) = self.mul_full(&x[1], &y[0])?;
        let s = self.bin(Bin::Add, 64, &h, &p)?;
        let t = self.bin(Bin::Add, 64, &s, &q)?;
        for c in [self.cmp(Pred::Ne, 64, &ph, &z), self.cmp(Pred::Ne, 64, &qh, &z), self.cmp(Pred::Ult, 64, &s, &h), self.cmp(Pred::Ult, 64, &t, &s)] {
            o = self.bin(Bin::Or, 1, &o, &c)?;
        }
        Ok(o)
    }
    fn bin(&mut self, op: Bin, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y), 128) = (a, b, w) {
            return self.bin128(op, x, y);
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Ok(Val::C(bin_c(op, w, *x, *y)));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let e = self.pool.bin(op, x, y);
        Ok(self.norm(e))
    }
    fn cmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::A(x), Val::A(y), 128) = (a, b, w) {
            let h = self.cmp(Pred::Eq, 64, &x[1], &y[1]);
            if matches!(p, Pred::Eq | Pred::Ne) {
                let l = self.cmp(Pred::Eq, 64, &x[0], &y[0]);
                let (l, h) = (self.e(&l, 1), self.e(&h, 1));
                let mut r = self.pool.bin(Bin::And, l, h);
                if p == Pred::Ne {
                    let one = self.pool.c(1, 1);
                    r = self.pool.bin(Bin::Xor, r, one);
                }
                return self.norm(r);
            }
            let low = match p {
                Pred::Slt => Pred::Ult,
                Pred::Sle => Pred::Ule,
                Pred::Sgt => Pred::Ugt,
                Pred::Sge => Pred::Uge,
                q => q,
            };
            let l = self.cmp(low, 64, &x[0], &y[0]);
            let g = self.cmp(p, 64, &x[1], &y[1]);
            return self.ite(&h, 1, l, g);
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Val::C(cmp_c(p, w, *x, *y) as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let e = self.pool.cmp(p, x, y);
        self.norm(e)
    }
    fn cast(&mut self, k: u8, wf: u32, wt: u32, a: &Val) -> Val {
        if wt == 128 && wf <= 64 {
            let l = self.cast(k, wf, 64, a);
            let h = match k {
                1 => match &l {
                    Val::C(c) => Val::C(((*c as i64) >> 63) as u64),
                    v => self.bin(Bin::AShr, 64, v, &Val::C(63)).unwrap_or(Val::C(0)),
                },
                _ => Val::C(0),
            };
            return Val::A(Rc::new(vec![l, h]));
        }
        if let (Val::A(x), 128) = (a, wf) {
            return if wt == 64 { x[0].clone() } else { self.cast(2, 64, wt, &x[0]) };
        }
        match a {
            Val::C(c) => Val::C(match k {
                0 => *c,
                1 => sx(*c, wf) as u64 & mask(wt as u8),
                _ => *c & mask(wt as u8),
            }),
            Val::S(e) => {
                let r = match k {
                    0 => self.pool.zext(*e, wt as u8),
                    1 => self.pool.sext(*e, wt as u8),
                    _ => self.pool.extract(*e, 0, wt as u8),
                };
                self.norm(r)
            }
            Val::A(_) => panic!("cast of aggregate"),
        }
    }
    fn ite(&mut self, c: &Val, w: u32, a: Val, b: Val) -> Val {
        if let (Val::S(_), Val::A(x), Val::A(y), 128) = (c, &a, &b, w) {
            let v = vec![self.ite(c, 64, x[0].clone(), y[0].clone()), self.ite(c, 64, x[1].clone(), y[1].clone())];
            return Val::A(Rc::new(v));
        }
        match c {
            Val::C(x) => {
                if *x != 0 {
                    a
                } else {
                    b
                }
            }
            Val::S(ce) => {
                let (x, y) = (self.e(&a, w), self.e(&b, w));
                let e = self.pool.ite(*ce, x, y);
                self.norm(e)
            }
            _ => panic!("ite"),
        }
    }

    fn step(&mut self, st: &mut State, m: &Module, maxdepth: usize, rep: &mut Report) -> R<()> {
        let f = &m.funcs[st.cur.func as usize];
        let ins = &f.code[st.cur.pc as usize];
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.cur.regs[$d as usize] = v;
                st.cur.pc += 1;
            }};
        }
        match ins {
            Ins::Alloca(d, off) => {
                let id = STACK_BASE + st.stack.len() as u64;
                set!(*d, Val::C((id << 32) + off))
            }
            Ins::Load(d, sh, p) => {
                let p = self.get(st, p);
                let v = match (&p, sh) {
                    (Val::S(e), Shape::I(w)) => match self.load_table(st, *e, *w) {
                        Some(v) => v,
                        None => {
                            let a = self.conc(st, &p)?;
                            self.load(st, a, sh)?
                        }
                    },
                    _ => {
                        let a = self.conc(st, &p)?;
                        self.load(st, a, sh)?
                    }
                };
                set!(*d, v)
            }
            Ins::Store(sh, v, p) => {
                let p = self.get(st, p);
                let a = self.conc(st, &p)?;
                let v = self.get(st, v);
                self.store(st, a, sh, &v)?;
                st.cur.pc += 1;
            }
            Ins::Gep(d, b, off, idx) => {
                let b = self.get(st, b);
                let mut r = self.bin(Bin::Add, 64, &b, &Val::C(*off))?;
                for (o, w, sc) in idx {
                    let i = self.get(st, o);
                    let i = if *w < 64 { self.cast(1, *w, 64, &i) } else { i };
                    let x = if *sc == 1 { i } else { self.bin(Bin::Mul, 64, &i, &Val::C(*sc))? };
                    r = self.bin(Bin::Add, 64, &r, &x)?;
                }
                set!(*d, r)
            }
            Ins::Bin(op, w, d, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = self.bin(*op, *w, &a, &b)?;
                set!(*d, v)
            }
            Ins::VBin(op, w, n, d, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = match (&a, &b) {
                    (Val::A(x), Val::A(y)) => {
                        let mut v = vec![];
                        for i in 0..*n as usize {
                            v.push(self.bin(*op, *w, &x[i], &y[i])?);
                        }
                        v
                    }
                    _ => return Err(Stop::Err("vbin".into())),
                };
                set!(*d, Val::A(Rc::new(v)))
            }
            Ins::Icmp(p, w, d, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = self.cmp(*p, *w, &a, &b);
                set!(*d, v)
            }
            Ins::VIcmp(p, w, n, d, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = match (&a, &b) {
                    (Val::A(x), Val::A(y)) => (0..*n as usize).map(|i| self.cmp(*p, *w, &x[i], &y[i])).collect(),
                    _ => return Err(Stop::Err("vicmp".into())),
                };
                set!(*d, Val::A(Rc::new(v)))
            }
            Ins::Zext(f, t, d, a) => {
                let a = self.get(st, a);
                let v = self.cast(0, *f, *t, &a);
                set!(*d, v)
            }
            Ins::Sext(f, t, d, a) => {
                let a = self.get(st, a);
                let v = self.cast(1, *f, *t, &a);
                set!(*d, v)
            }
            Ins::Trunc(f, t, d, a) => {
                let a = self.get(st, a);
                let v = self.cast(2, *f, *t, &a);
                set!(*d, v)
            }
            Ins::VCast(k, f, t, d, a) => {
                let a = self.get(st, a);
                let v = match &a {
                    Val::A(x) => x.iter().map(|y| self.cast(*k, *f, *t, y)).collect(),
                    _ => return Err(Stop::Err("vcast".into())),
                };
                set!(*d, Val::A(Rc::new(v)))
            }
            Ins::Copy(d, a) => {
                let a = self.get(st, a);
                set!(*d, a)
            }
            Ins::BitcastV(d, s1, s2, a) => {
                let a = self.get(st, a);
                let v = self.bitcast(st, s1, s2, a)?;
                set!(*d, v)
            }
            Ins::Select(d, w, c, a, b) => {
                let c = self.get(st, c);
                let v = match c {
                    Val::C(x) => self.get(st, if x != 0 { a } else { b }),
                    Val::S(ce) => match self.decide(st, ce) {
                        Some(true) => self.get(st, a),
                        Some(false) => self.get(st, b),
                        None => {
                            if *w == 0 || *w > 32 {
                                return Err(Stop::Fork(ce));
                            }
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            self.ite(&Val::S(ce), *w, x, y)
                        }
                    },
                    Val::A(cs) => match (self.get(st, a), self.get(st, b)) {
                        (Val::A(x), Val::A(y)) => {
                            let mut v = vec![];
                            for i in 0..cs.len() {
                                v.push(self.ite(&cs[i], *w, x[i].clone(), y[i].clone()));
                            }
                            Val::A(Rc::new(v))
                        }
                        _ => return Err(Stop::Err("select".into())),
                    },
                };
                set!(*d, v)
            }
            Ins::Extract(d, a, path) => {
                let mut v = self.get(st, a);
                for i in path {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                set!(*d, v)
            }
            Ins::Insert(d, a, b, path) => {
                let v = self.get(st, a);
                let x = self.get(st, b);
                let r = insert(v, path, x).map_err(Stop::Err)?;
                set!(*d, r)
            }
            Ins::ExtElem(d, a, i) => {
                let a = self.get(st, a);
                let i = self.get(st, i);
                let i = self.conc(st, &i)?;
                let v = match a {
                    Val::A(x) => x[i as usize].clone(),
                    _ => return Err(Stop::Err("extractelement".into())),
                };
                set!(*d, v)
            }
            Ins::InsElem(d, a, b, i) => {
                let a = self.get(st, a);
                let x = self.get(st, b);
                let i = self.get(st, i);
                let i = self.conc(st, &i)?;
                let v = insert(a, &[i as u32], x).map_err(Stop::Err)?;
                set!(*d, v)
            }
            Ins::Shuffle(d, a, b, mask) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let v = match (&a, &b) {
                    (Val::A(x), Val::A(y)) => mask
                        .iter()
                        .map(|i| {
                            let i = (*i).max(0) as usize;
                            if i < x.len() {
                                x[i].clone()
                            } else {
                                y[i - x.len()].clone()
                            }
                        })
                        .collect(),
                    _ => return Err(Stop::Err("shuffle".into())),
                };
                set!(*d, Val::A(Rc::new(v)))
            }
            Ins::Br(e) => self.take(st, *e),
            Ins::CondBr(c, a, b) => {
                let c = self.get(st, c);
                let t = self.truth(st, &c)?;
                self.take(st, if t { *a } else { *b });
            }
            Ins::Switch(v, w, d, cases) => {
                let v = self.get(st, v);
                match v {
                    Val::C(x) => {
                        let e = cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                        self.take(st, e);
                    }
                    Val::S(e) => {
                        // group by successor
                        let mut done: Vec<u32> = vec![*d];
                        for (_, t) in cases {
                            if done.contains(t) {
                                continue;
                            }
                            done.push(*t);
                            let mut c = self.pool.c(0, 1);
                            for (k, t2) in cases {
                                if t2 == t {
                                    let kk = self.pool.c(*k, *w as u8);
                                    let q = self.pool.cmp(Pred::Eq, e, kk);
                                    c = self.pool.bin(Bin::Or, c, q);
                                }
                            }
                            if self.truth(st, &Val::S(c))? {
                                self.take(st, *t);
                                return Ok(());
                            }
                        }
                        self.take(st, *d);
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
            }
            Ins::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                let fr = match st.stack.pop() {
                    None => return Err(Stop::End),
                    Some(f) => f,
                };
                let dst = st.cur.dst;
                st.cur = match Rc::try_unwrap(fr) {
                    Ok(f) => f,
                    Err(r) => (*r).clone(),
                };
                if st.stack.is_empty() && st.cur.func == u32::MAX {
                    return Err(Stop::End);
                }
                if let (Some(d), Some(v)) = (dst, v) {
                    st.cur.regs[d as usize] = v;
                }
            }
            Ins::Unreachable => {
                return Err(Stop::Bad("unreachable".into(), format!("unreachable code reached in {}", f.name)));
            }
            Ins::Unsupported(s) => return Err(Stop::Err(format!("unsupported instruction in {}: {}", f.name, s))),
            Ins::Call(dst, callee, args, rw) => match callee {
                Callee::Fn(fi) => {
                    let a: Vec<Val> = args.iter().map(|o| self.get(st, o)).collect();
                    st.cur.pc += 1;
                    self.push_call(st, *fi, a, *dst, maxdepth)?;
                    rep.maxdepth = rep.maxdepth.max(st.stack.len());
                }
                Callee::Ind(p) => {
                    let p = self.get(st, p);
                    let x = self.conc(st, &p)?;
                    let id = x >> 32;
                    if id < FN_TAG || id - FN_TAG >= m.funcs.len() as u64 {
                        return Err(self.bad(st, "call through a bad pointer"));
                    }
                    let fi = (id - FN_TAG) as u32;
                    if !m.funcs[fi as usize].defined {
                        return Err(Stop::Err(format!("indirect call to external {}", m.funcs[fi as usize].name)));
                    }
                    let a: Vec<Val> = args.iter().map(|o| self.get(st, o)).collect();
                    st.cur.pc += 1;
                    self.push_call(st, fi, a, *dst, maxdepth)?;
                }
                Callee::Ext(n) => return Err(Stop::Err(format!("external function {}", n))),
                Callee::In(k) => {
                    let a: Vec<Val> = args.iter().map(|o| self.get(st, o)).collect();
                    let r = self.intrinsic(st, KS[*k as usize], a, *rw, rep)?;
                    if let (Some(d), Some(v)) = (dst, r) {
                        st.cur.regs[*d as usize] = v;
                    }
                    st.cur.pc += 1;
                }
            },
        }
        Ok(())
    }
    fn bitcast(&mut self, _st: &State, s1: &Shape, s2: &Shape, a: Val) -> R<Val> {
        // flatten to bits when concrete
        let flat: Vec<(Val, u32)> = match (s1, &a) {
            (Shape::I(w), v) => vec![(v.clone(), *w)],
            (Shape::V(_, w), Val::A(x)) => x.iter().map(|v| (v.clone(), *w)).collect(),
            _ => return Err(Stop::Err("bitcast".into())),
        };
        let same = matches!((s1, s2), (Shape::I(_), Shape::I(_))) || matches!((s1, s2), (Shape::V(_, x), Shape::V(_, y)) if x == y);
        if same {
            return Ok(a);
        }
        let mut bits: u128 = 0;
        let mut pos = 0;
        let conc = flat.iter().all(|(v, _)| matches!(v, Val::C(_)));
        if conc {
            for (v, w) in &flat {
                if let Val::C(c) = v {
                    bits |= (*c as u128 & mask(*w as u8) as u128) << pos;
                }
                pos += w;
            }
            return Ok(match s2 {
                Shape::I(w) => Val::C(bits as u64 & mask(*w as u8)),
                Shape::V(n, w) => Val::A(Rc::new((0..*n as u32).map(|i| Val::C((bits >> (i * w)) as u64 & mask(*w as u8))).collect())),
                _ => return Err(Stop::Err("bitcast".into())),
            });
        }
        if let Shape::I(wt) = s2 {
            // movemask-like: vector of small elements to an integer
            let mut r = self.pool.c(0, *wt as u8);
            for (v, w) in &flat {
                let e = self.e(v, *w);
                let z = self.pool.zext(e, *wt as u8);
                let k = self.pool.c(pos as u64, *wt as u8);
                let s = self.pool.bin(Bin::Shl, z, k);
                r = self.pool.bin(Bin::Or, r, s);
                pos += w;
            }
            return Ok(self.norm(r));
        }
        if let (Shape::I(_), Shape::V(n, w), Val::S(e)) = (s1, s2, &flat[0].0) {
            let mut v = Vec::new();
            for i in 0..*n as u32 {
                let x = self.pool.extract(*e, (i * *w) as u8, *w as u8);
                v.push(self.norm(x));
            }
            return Ok(Val::A(Rc::new(v)));
        }
        Err(Stop::Err("symbolic bitcast".into()))
    }
    fn intrinsic(&mut self, st: &mut State, k: K, a: Vec<Val>, w: u32, rep: &mut Report) -> R<Option<Val>> {
        if let (Some(Val::A(x)), K::Ctpop | K::Ctlz | K::Cttz | K::Fshl | K::Fshr | K::UMax | K::UMin | K::SMax | K::SMin | K::USubSat | K::UAddSat | K::SAddSat | K::SSubSat | K::Abs | K::Bswap | K::Bitrev, true) = (a.first(), k, w != 128) {
            let mut v = vec![];
            for i in 0..x.len() {
                let b = a.iter().map(|y| if let Val::A(z) = y { z[i].clone() } else { y.clone() }).collect();
                v.push(self.intrinsic(st, k, b, w, rep)?.unwrap());
            }
            return Ok(Some(Val::A(Rc::new(v))));
        }
        Ok(match k {
            K::RedOr | K::RedAnd | K::RedAdd | K::RedXor | K::RedMul | K::RedUMax | K::RedUMin | K::RedSMax | K::RedSMin => {
                let x = match &a[0] {
                    Val::A(x) => x.clone(),
                    _ => return Err(Stop::Err("vector.reduce".into())),
                };
                let op = match k {
                    K::RedOr => Bin::Or,
                    K::RedAnd => Bin::And,
                    K::RedAdd => Bin::Add,
                    K::RedMul => Bin::Mul,
                    _ => Bin::Xor,
                };
                let pick = match k {
                    K::RedUMax => Some(Pred::Ugt),
                    K::RedUMin => Some(Pred::Ult),
                    K::RedSMax => Some(Pred::Sgt),
                    K::RedSMin => Some(Pred::Slt),
                    _ => None,
                };
                let mut r = x[0].clone();
                for y in &x[1..] {
                    if let Some(p) = pick {
                        let c = self.cmp(p, w, &r, y);
                        r = self.ite(&c, w, r, y.clone());
                        continue;
                    }
                    r = self.bin(op, w, &r, y)?;
                }
                Some(r)
            }
            K::Bitrev => Some(match &a[0] {
                Val::C(c) => Val::C(c.reverse_bits() >> (64 - w)),
                v => {
                    let mut r = Val::C(0);
                    for i in 0..w {
                        let b = self.bin(Bin::LShr, w, v, &Val::C(i as u64))?;
                        let b = self.bin(Bin::And, w, &b, &Val::C(1))?;
                        let b = self.bin(Bin::Shl, w, &b, &Val::C((w - 1 - i) as u64))?;
                        r = self.bin(Bin::Or, w, &r, &b)?;
                    }
                    r
                }
            }),
            K::Nop => Some(Val::C(0)),
            K::Alloc | K::AllocZ => {
                let n = self.conc(st, &a[0])?;
                Some(Val::C(self.alloc(st, n)?))
            }
            K::Dealloc => {
                let p = self.conc(st, &a[0])?;
                self.free(st, p)?;
                None
            }
            K::Realloc => {
                let p = self.conc(st, &a[0])?;
                let old = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[3])?;
                let q = self.alloc(st, n)?;
                st.steps += old.min(n);
                self.copy_mem(st, q, p, old.min(n))?;
                self.free(st, p)?;
                Some(Val::C(q))
            }
            K::Memcpy => {
                let d = self.conc(st, &a[0])?;
                let s = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                st.steps += n;
                self.copy_mem(st, d, s, n)?;
                Some(Val::C(d))
            }
            K::Memset => {
                let d = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[2])?;
                st.steps += n;
                for i in 0..n {
                    self.store_scalar(st, d + i, 8, &a[1])?;
                }
                Some(Val::C(d))
            }
            K::Ctpop | K::Ctlz | K::Cttz => {
                let v = match &a[0] {
                    Val::C(c) => Val::C(match k {
                        K::Ctpop => c.count_ones() as u64,
                        K::Ctlz => (c.leading_zeros() - (64 - w)) as u64,
                        _ => (c.trailing_zeros()).min(w) as u64,
                    }),
                    Val::S(e) => {
                        let e = *e;
                        if k == K::Ctpop {
                            let mut r = self.pool.c(0, w as u8);
                            for i in 0..w {
                                let b = self.pool.extract(e, i as u8, 1);
                                let z = self.pool.zext(b, w as u8);
                                r = self.pool.bin(Bin::Add, r, z);
                            }
                            self.norm(r)
                        } else {
                            let mut r = self.pool.c(w as u64, w as u8);
                            for j in 0..w {
                                let i = if k == K::Ctlz { j } else { w - 1 - j };
                                let b = self.pool.extract(e, i as u8, 1);
                                let v = self.pool.c(if k == K::Ctlz { (w - 1 - i) as u64 } else { i as u64 }, w as u8);
                                r = self.pool.ite(b, v, r);
                            }
                            self.norm(r)
                        }
                    }
                    _ => return Err(Stop::Err("vector bit count".into())),
                };
                Some(v)
            }
            K::UAddO | K::USubO | K::UMulO | K::SAddO | K::SSubO | K::SMulO => {
                let op = match k {
                    K::UAddO | K::SAddO => Bin::Add,
                    K::USubO | K::SSubO => Bin::Sub,
                    _ => Bin::Mul,
                };
                let r = self.bin(op, w, &a[0], &a[1])?;
                let o = match (&a[0], &a[1]) {
                    (Val::A(x), Val::A(y)) if w == 128 && k == K::UMulO => self.mul_over128(x, y)?,
                    (Val::A(_), _) if w == 128 && !matches!(k, K::UAddO | K::USubO) => return Err(Stop::Err("128-bit signed overflow".into())),
                    (Val::C(x), Val::C(y)) => {
                        let (ux, uy) = (*x as i128, *y as i128);
                        let (sx_, sy) = (sx(*x, w) as i128, sx(*y, w) as i128);
                        let hi = 1i128 << w;
                        let (smin, smax) = (-(hi >> 1), (hi >> 1) - 1);
                        let v = match k {
                            K::UAddO => ux + uy >= hi,
                            K::USubO => ux < uy,
                            K::UMulO => (*x as u128) * (*y as u128) >= hi as u128,
                            K::SAddO => sx_ + sy < smin || sx_ + sy > smax,
                            K::SSubO => sx_ - sy < smin || sx_ - sy > smax,
                            _ => sx_ * sy < smin || sx_ * sy > smax,
                        };
                        Val::C(v as u64)
                    }
                    _ => match k {
                        K::UAddO => self.cmp(Pred::Ult, w, &r, &a[0]),
                        K::USubO => self.cmp(Pred::Ult, w, &a[0], &a[1]),
                        K::UMulO => {
                            if w > 32 {
                                // overflow iff y != 0 and (x*y)/y != x
                                let q = self.bin(Bin::UDiv, w, &r, &a[1])?;
                                let n = self.cmp(Pred::Ne, w, &q, &a[0]);
                                let z = self.cmp(Pred::Ne, w, &a[1], &Val::C(0));
                                self.bin(Bin::And, 1, &n, &z)?
                            } else {
                                let x = self.cast(0, w, 2 * w, &a[0]);
                                let y = self.cast(0, w, 2 * w, &a[1]);
                                let p = self.bin(Bin::Mul, 2 * w, &x, &y)?;
                                self.cmp(Pred::Ugt, 2 * w, &p, &Val::C(mask(w as u8)))
                            }
                        }
                        _ => {
                            if w > 32 && k != K::SMulO {
                                // the sign of the result differs from what the operands' signs allow
                                let p = if k == K::SAddO { self.bin(Bin::Xor, w, &a[1], &r)? } else { self.bin(Bin::Xor, w, &a[0], &a[1])? };
                                let q = self.bin(Bin::Xor, w, &a[0], &r)?;
                                let p = self.bin(Bin::And, w, &p, &q)?;
                                let o = self.cmp(Pred::Slt, w, &p, &Val::C(0));
                                return Ok(Some(Val::A(Rc::new(vec![r, o]))));
                            }
                            if w > 32 {
                                return Err(Stop::Err("wide signed overflow".into()));
                            }
                            let x = self.cast(1, w, 2 * w, &a[0]);
                            let y = self.cast(1, w, 2 * w, &a[1]);
                            let p = self.bin(op, 2 * w, &x, &y)?;
                            let q = self.cast(1, w, 2 * w, &r);
                            self.cmp(Pred::Ne, 2 * w, &p, &q)
                        }
                    },
                };
                Some(Val::A(Rc::new(vec![r, o])))
            }
            K::Fshl | K::Fshr => {
                let s = self.conc(st, &a[2])? % w as u64;
                if s == 0 {
                    Some(if k == K::Fshl { a[0].clone() } else { a[1].clone() })
                } else {
                    let (l, r) = if k == K::Fshl { (s, w as u64 - s) } else { (w as u64 - s, s) };
                    let x = self.bin(Bin::Shl, w, &a[0], &Val::C(l))?;
                    let y = self.bin(Bin::LShr, w, &a[1], &Val::C(r))?;
                    Some(self.bin(Bin::Or, w, &x, &y)?)
                }
            }
            K::UMax | K::UMin | K::SMax | K::SMin => {
                let p = match k {
                    K::UMax => Pred::Ugt,
                    K::UMin => Pred::Ult,
                    K::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.cmp(p, w, &a[0], &a[1]);
                Some(self.ite(&c, w, a[0].clone(), a[1].clone()))
            }
            K::USubSat => {
                let c = self.cmp(Pred::Ugt, w, &a[0], &a[1]);
                let d = self.bin(Bin::Sub, w, &a[0], &a[1])?;
                Some(self.ite(&c, w, d, Val::C(0)))
            }
            K::UAddSat => {
                let d = self.bin(Bin::Add, w, &a[0], &a[1])?;
                let c = self.cmp(Pred::Ult, w, &d, &a[0]);
                Some(self.ite(&c, w, Val::C(mask(w as u8)), d))
            }
            K::Abs => {
                let c = self.cmp(Pred::Slt, w, &a[0], &Val::C(0));
                let d = self.bin(Bin::Sub, w, &Val::C(0), &a[0])?;
                Some(self.ite(&c, w, d, a[0].clone()))
            }
            K::Bswap => {
                let n = w / 8;
                Some(match &a[0] {
                    Val::C(c) => Val::C(c.swap_bytes() >> (64 - w)),
                    Val::S(e) => {
                        let e = *e;
                        let v: Vec<E> = (0..n).rev().map(|i| self.pool.extract(e, (8 * i) as u8, 8)).collect();
                        let r = self.pool.bytes(v);
                        self.norm(r)
                    }
                    _ => return Err(Stop::Err("bswap".into())),
                })
            }
            K::SAddSat | K::SSubSat => {
                let o = self.intrinsic(st, if k == K::SAddSat { K::SAddO } else { K::SSubO }, a.clone(), w, rep)?;
                let (r, o) = match o {
                    Some(Val::A(x)) => (x[0].clone(), x[1].clone()),
                    _ => return Err(Stop::Err("saturating".into())),
                };
                let m = mask(w as u8);
                let neg = self.cmp(Pred::Slt, w, &a[0], &Val::C(0));
                let lim = self.ite(&neg, w, Val::C((m >> 1) + 1), Val::C(m >> 1));
                Some(self.ite(&o, w, lim, r))
            }
            K::PtrMask => Some(self.bin(Bin::And, w, &a[0], &a[1])?),
            K::Ident => Some(a[0].clone()),
            K::Zero => Some(Val::C(0)),
            K::Bcmp | K::Memcmp => {
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                st.steps += n / 8;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                if let (Some(x), Some(y)) = (self.concrete_view(st, p, n), self.concrete_view(st, q, n)) {
                    let r = match x.cmp(y) {
                        std::cmp::Ordering::Less => 0xffff_ffff,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return Ok(Some(Val::C(r)));
                }
                let x = self.view(st, p, n)?;
                let y = self.view(st, q, n)?;
                let r = if k == K::Bcmp {
                    let mut eq = self.pool.c(1, 1);
                    for (i, j) in x.iter().zip(y.iter()) {
                        let c = self.pool.cmp(Pred::Eq, *i, *j);
                        eq = self.pool.bin(Bin::And, eq, c);
                    }
                    let ne = self.pool.not(eq);
                    self.pool.zext(ne, 32)
                } else {
                    let mut r = self.pool.c(0, 32);
                    let (lt, gt) = (self.pool.c(0xffff_ffff, 32), self.pool.c(1, 32));
                    for (i, j) in x.iter().zip(y.iter()).rev() {
                        let c = self.pool.cmp(Pred::Eq, *i, *j);
                        let l = self.pool.cmp(Pred::Ult, *i, *j);
                        let d = self.pool.ite(l, lt, gt);
                        r = self.pool.ite(c, r, d);
                    }
                    r
                };
                Some(self.norm(r))
            }
            K::Ucmp | K::Scmp8 | K::Scmp16 | K::Scmp32 | K::Scmp64 => {
                // operand width is unknown from the result width; values are normalised, use 64 for constants
                let wa = match (&a[0], &a[1]) {
                    (Val::S(e), _) | (_, Val::S(e)) => self.pool.w(*e) as u32,
                    _ => 64,
                };
                let wa = match k {
                    K::Scmp8 => 8,
                    K::Scmp16 => 16,
                    K::Scmp32 => 32,
                    _ => wa,
                };
                let (pl, _) = if k == K::Ucmp { (Pred::Ult, 0) } else { (Pred::Slt, 0) };
                let l = self.cmp(pl, wa, &a[0], &a[1]);
                let e = self.cmp(Pred::Eq, wa, &a[0], &a[1]);
                let x = self.ite(&e, w, Val::C(0), Val::C(1));
                Some(self.ite(&l, w, Val::C(mask(w as u8)), x))
            }
            K::Trap => return Err(Stop::Bad("trap".into(), "abort".into())),
            K::SymAssert => {
                let id = self.conc(st, &a[1])?;
                let c = self.cmp(Pred::Ne, 32, &a[0], &Val::C(0));
                rep.asserts += 1;
                let sym = matches!(c, Val::S(_));
                let t = self.truth(st, &c)?;
                if sym {
                    rep.sym_asserts += 1;
                }
                if !t {
                    return Err(Stop::Bad("assert".into(), format!("{}", id)));
                }
                None
            }
            K::SymAssume => {
                let c = self.cmp(Pred::Ne, 32, &a[0], &Val::C(0));
                if !self.truth(st, &c)? {
                    return Err(Stop::Drop);
                }
                None
            }
            K::SymCover => {
                let id = self.conc(st, &a[0])?;
                st.covers |= 1 << (id & 63);
                None
            }
            K::SymOut => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let v: Vec<E> = self.view(st, p, n)?;
                let mut o = (*st.out).clone();
                for e in v {
                    match self.pool.cval(e) {
                        Some(c) => o.push((0, c as u8)),
                        None => o.push((e, 0)),
                    }
                }
                st.out = Rc::new(o);
                None
            }
            K::SymPanic => {
                let p = self.conc(st, &a[0])?;
                let mut loc = String::from("?");
                if p != 0 {
                    if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(l))) = (self.load_scalar(st, p, 64), self.load_scalar(st, p + 8, 64), self.load_scalar(st, p + 16, 32)) {
                        if let Some(s) = self.concrete_view(st, f, n) {
                            loc = format!("{}:{}", String::from_utf8_lossy(s).trim_end_matches('\0'), l);
                        }
                    }
                }
                return Err(Stop::Bad("panic".into(), loc));
            }
            K::SymReset => {
                st.globs.clear();
                None
            }
            K::SymIsSym => Some(Val::C(matches!(a[0], Val::S(_)) as u64)),
            K::ObjSize | K::Unknown => return Err(Stop::Err("intrinsic".into())),
        })
    }
    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        let id = p >> 32;
        if p & 0xffff_ffff != 0 || id < HEAP_BASE || id >= STACK_BASE {
            return Err(self.bad(st, "free of a bad pointer"));
        }
        match st.heap.get_mut((id - HEAP_BASE) as usize) {
            Some(o) if o.is_some() => {
                *o = None;
                Ok(())
            }
            _ => Err(self.bad(st, "double free")),
        }
    }
    fn input_of(&self, model: &[u8]) -> Vec<u8> {
        let mut v = vec![];
        for s in &self.tmpl {
            match s {
                Seg::Lit(b) => v.extend_from_slice(b),
                Seg::Sym(i, _) => v.push(model[*i as usize]),
            }
        }
        v
    }
    pub fn explore(&mut self, t: &Template, deadline: std::time::Instant, max_samples: usize, max_viol: usize) -> Report {
        let m = self.m.clone();
        let mut rep = Report { covers: vec![0; 64], ..Default::default() };
        if self.pool.n.len() > 3_000_000 {
            let cov = std::mem::take(&mut self.cov);
            let (q, s, u, c, tm) = (self.z3.queries, self.z3.sat, self.z3.unsat, self.z3.cached, self.z3.time_us);
            self.pool = Pool::new();
            self.z3 = Z3::new();
            self.z3.queries = q;
            self.z3.sat = s;
            self.z3.unsat = u;
            self.z3.cached = c;
            self.z3.time_us = tm;
            self.cov = cov;
        }
        self.tmpl = t.segs.clone();
        let fi = match m.fidx.get(&t.entry) {
            Some(f) if m.funcs[*f as usize].defined => *f,
            _ => {
                rep.error = Some(format!("no entry {}", t.entry));
                return rep;
            }
        };
        // initial state
        let mut nv = 0;
        for s in &t.segs {
            if let Seg::Sym(i, _) = s {
                nv = nv.max(*i as usize + 1);
            }
        }
        let mut doms = vec![dom_full(); nv];
        let mut obj = Obj::default();
        let mut sym = vec![];
        for s in &t.segs {
            match s {
                Seg::Lit(b) => {
                    obj.data.extend_from_slice(b);
                    sym.resize(obj.data.len(), (0, 0));
                }
                Seg::Sym(i, d) => {
                    for k in 0..4 {
                        doms[*i as usize][k] &= d[k];
                    }
                    let e = self.pool.var(*i);
                    obj.data.push(0);
                    sym.push((e, 0));
                }
            }
        }
        if nv > 0 {
            obj.sym = Some(sym);
        }
        let len = obj.data.len() as u64;
        let mut model = vec![];
        for d in &doms {
            match dom_first(d) {
                Some(b) => model.push(b),
                None => {
                    rep.error = Some("empty class".into());
                    return rep;
                }
            }
        }
        // concretise one-value domains up front is unnecessary: decide() handles them
        let root = Frame { func: u32::MAX, pc: 0, dst: None, regs: vec![], slab: Rc::new(Obj::default()) };
        let mut st = State {
            cur: root,
            stack: vec![],
            heap: vec![Some(Rc::new(obj))],
            globs: Default::default(),
            doms: Rc::new(doms),
            cons: Rc::new(vec![]),
            model,
            steps: 0,
            out: Rc::new(vec![]),
            covers: 0,
        };
        if let Err(Stop::Err(e)) = self.push_call(&mut st, fi, vec![Val::C(HEAP_BASE << 32), Val::C(len)], None, t.max_depth) {
            rep.error = Some(e);
            return rep;
        }
        let mut work = vec![st];
        let mut rng: u64 = 0x9e3779b97f4a7c15;
        while let Some(mut st) = work.pop() {
            if std::time::Instant::now() > deadline {
                rep.timeout = true;
                rep.live = work.len() + 1;
                break;
            }
            loop {
                st.steps += 1;
                rep.instrs += 1;
                if PROF { unsafe { *(&mut *std::ptr::addr_of_mut!(PR)).entry(st.cur.func).or_insert(0u64) += 1; } }
                let r = if st.steps > t.max_steps {
                    Err(Stop::Bad("hang".into(), format!("more than {} instructions", t.max_steps)))
                } else {
                    self.step(&mut st, &m, t.max_depth, &mut rep)
                };
                match r {
                    Ok(()) => continue,
                    Err(Stop::Fork(e)) => {
                        rep.forks += 1;
                        match self.split(st, e) {
                            Ok(mut v) => {
                                if v.is_empty() {
                                    rep.error = Some("no feasible successor".into());
                                    return rep;
                                }
                                // continue with the model side; the other one waits
                                let first = v.remove(0);
                                work.extend(v);
                                st = first;
                                if rep.instrs & 0xff == 0 && std::time::Instant::now() > deadline {
                                    rep.timeout = true;
                                    rep.live = work.len() + 1;
                                    return rep;
                                }
                                continue;
                            }
                            Err(e) => {
                                rep.error = Some(e);
                                return rep;
                            }
                        }
                    }
                    Err(Stop::End) => {
                        rep.paths += 1;
                        if st.steps > rep.maxsteps {
                            rep.maxsteps = st.steps;
                            if t.name.starts_with("cost") {
                                rep.maxinput = self.input_of(&st.model);
                            }
                        }
                        for i in 0..64 {
                            if st.covers >> i & 1 != 0 {
                                rep.covers[i] += 1;
                            }
                        }
                        // reservoir sample of path witnesses
                        let k = if rep.samples.len() < max_samples {
                            rep.samples.len()
                        } else {
                            rng ^= rng << 13;
                            rng ^= rng >> 7;
                            rng ^= rng << 17;
                            (rng % rep.paths) as usize
                        };
                        if k < max_samples {
                            let mut h = 0xcbf29ce484222325u64;
                            let out = st.out.clone();
                            for (e, b) in out.iter() {
                                let x = if *e == 0 { *b } else { self.pool.eval(*e, &st.model) as u8 };
                                h = (h ^ x as u64).wrapping_mul(0x100000001b3);
                            }
                            let s = (self.input_of(&st.model), h);
                            if k < rep.samples.len() {
                                rep.samples[k] = s;
                            } else {
                                rep.samples.push(s);
                            }
                        }
                        break;
                    }
                    Err(Stop::Drop) => {
                        rep.dropped += 1;
                        break;
                    }
                    Err(Stop::Bad(k, w)) => {
                        rep.paths += 1;
                        if let Some(v) = rep.violations.iter_mut().find(|v| v.0 == k && v.1 == w) {
                            v.3 += 1;
                        } else if rep.violations.len() < max_viol {
                            let i = self.input_of(&st.model);
                            rep.violations.push((k.clone(), w, i, 1));
                        }
                        if k == "hang" {
                            // the other paths of this template would take as long
                            rep.timeout = true;
                            rep.live = work.len() + 1;
                            return rep;
                        }
                        break;
                    }
                    Err(Stop::Err(e)) => {
                        let f = if st.cur.func == u32::MAX { "root" } else { &m.funcs[st.cur.func as usize].name };
                        rep.error = Some(format!("{} (in {} at {}) input {:?}", e, f, st.cur.pc, String::from_utf8_lossy(&self.input_of(&st.model))));
                        return rep;
                    }
                }
            }
        }
        if PROF { unsafe { let mut v: Vec<_> = (&*std::ptr::addr_of!(PR)).iter().map(|(k,v)| (*v,*k)).collect(); v.sort(); for (n,k) in v.iter().rev().take(45) { eprintln!("{} {}", n, m.funcs[*k as usize].name); } } }
        rep
    }
}

fn cst_val(c: &Cst) -> Val {
    match c {
        Cst::Int(x) => Val::C(*x),
        Cst::Agg(v) => Val::A(Rc::new(v.iter().map(cst_val).collect())),
    }
}
fn insert(v: Val, path: &[u32], x: Val) -> Result<Val, String> {
    if path.is_empty() {
        return Ok(x);
    }
    match v {
        Val::A(mut r) => {
            let i = path[0] as usize;
            let inner = std::mem::replace(&mut Rc::make_mut(&mut r)[i], Val::C(0));
            Rc::make_mut(&mut r)[i] = insert(inner, &path[1..], x)?;
            Ok(Val::A(r))
        }
        _ => Err("insertvalue".into()),
    }
}

pub const PROF: bool = false;
pub static mut PR: std::collections::BTreeMap<u32, u64> = std::collections::BTreeMap::new();
