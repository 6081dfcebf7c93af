//! Parser for the subset of textual LLVM IR that rustc emits, into a compact executable form.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Func,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.store_size()).next_power_of_two(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.alloc_size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.store_size(),
            },
            Ty::Struct(ts, _) => {
                let mut o = 0;
                for (i, t) in ts.iter().enumerate() {
                    o = self.field_off(i) + t.alloc_size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn alloc_size(&self) -> u64 {
        let s = self.store_size();
        let a = self.align();
        (s + a - 1) / a * a
    }
    pub fn field_off(&self, idx: usize) -> u64 {
        if let Ty::Struct(ts, packed) = self {
            let mut o = 0u64;
            for (i, t) in ts.iter().enumerate() {
                let a = if *packed { 1 } else { t.align() };
                o = (o + a - 1) / a * a;
                if i == idx {
                    return o;
                }
                o += t.alloc_size();
            }
        }
        panic!("field_off")
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
}

/// Constant value tree.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u64),
    Agg(Vec<Cst>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(u64),
    A(u32), // aggregate constant, index into module table
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

/// A shape of a first-class value: scalar width, or vector/struct of scalars.
#[derive(Clone, Debug)]
pub enum Shape {
    I(u32),                      // integer/pointer of given width
    V(u64, u32),                 // vector n x width
    S(Vec<(u64, Shape)>),        // struct: (offset, shape)
}

#[derive(Clone, Debug)]
pub enum Ins {
    Alloca(u32, u64),                                 // dst, offset in frame slab
    Load(u32, Shape, Opnd),
    Store(Shape, Opnd, Opnd),                         // value, ptr
    Gep(u32, Opnd, u64, Vec<(Opnd, u32, u64)>),       // dst, base, const offset, (index, index width, scale)
    Bin(Bin, u32, u32, Opnd, Opnd),                   // op, width, dst
    VBin(Bin, u32, u64, u32, Opnd, Opnd),             // op, width, n, dst
    Icmp(Pred, u32, u32, Opnd, Opnd),
    VIcmp(Pred, u32, u64, u32, Opnd, Opnd),
    Zext(u32, u32, u32, Opnd),                        // from, to, dst
    Sext(u32, u32, u32, Opnd),
    Trunc(u32, u32, u32, Opnd),
    VCast(u8, u32, u32, u32, Opnd),                   // 0 zext 1 sext 2 trunc elementwise
    Copy(u32, Opnd),
    BitcastV(u32, Shape, Shape, Opnd),
    Select(u32, u32, Opnd, Opnd, Opnd),               // dst, width(0=agg)
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, Opnd, Opnd, Vec<u32>),
    ExtElem(u32, Opnd, Opnd),
    InsElem(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<i32>),
    Call(Option<u32>, Callee, Vec<Opnd>, u32),        // ret width
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, u32, Vec<(u64, u32)>),          // value, width, default edge, cases
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),          // module function
    Ext(String),      // declared function / intrinsic
    Ind(Opnd),
    In(u16),          // intrinsic, resolved by the executor
}

#[derive(Clone, Debug, Default)]
pub struct Edge {
    pub target: u32,                   // instruction index
    pub phis: Vec<(u32, Opnd)>,
}

#[derive(Debug, Default)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub nregs: u32,
    pub slab: u64,
    pub code: Vec<Ins>,
    pub edges: Vec<Edge>,
    pub defined: bool,
}

#[derive(Debug, Default)]
pub struct Global {
    pub name: String,
    pub constant: bool,
    pub bytes: Vec<u8>,
    pub relocs: Vec<(u64, String, i64)>,
    pub align: u64,
    pub external: bool,
}

#[derive(Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aggs: Vec<Cst>,
}

pub const FN_TAG: u64 = 0x7000_0000; // object id of function i: FN_TAG + i
pub const GLOBAL_BASE: u64 = 0x1000;  // object id of global i

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),     // keyword / identifier / number word
    Loc(String),    // %x
    Glob(String),   // @x
    Num(i128),
    Str(Vec<u8>),   // c"..."
    P(char),
    Meta(String),   // !x
    Attr,           // #n
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = Vec::new();
    fn word(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' {
            i += 1;
        } else if c == b';' {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if c == b'%' || c == b'@' {
            let mut j = i + 1;
            let name;
            if j < b.len() && b[j] == b'"' {
                j += 1;
                let st = j;
                while b[j] != b'"' {
                    j += 1;
                }
                name = s[st..j].to_string();
                j += 1;
            } else {
                let st = j;
                while j < b.len() && word(b[j]) {
                    j += 1;
                }
                name = s[st..j].to_string();
            }
            v.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
            i = j;
        } else if c == b'!' {
            let mut j = i + 1;
            while j < b.len() && (word(b[j])) {
                j += 1;
            }
            v.push(Tok::Meta(s[i + 1..j].to_string()));
            i = j;
        } else if c == b'#' {
            let mut j = i + 1;
            while j < b.len() && word(b[j]) {
                j += 1;
            }
            v.push(Tok::Attr);
            i = j;
        } else if (c == b'c' && i + 1 < b.len() && b[i + 1] == b'"') || c == b'"' {
            let mut j = if c == b'c' { i + 2 } else { i + 1 };
            let mut out = Vec::new();
            while b[j] != b'"' {
                if b[j] == b'\\' {
                    if b[j + 1] == b'\\' {
                        out.push(b'\\');
                        j += 2;
                    } else {
                        out.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                        j += 3;
                    }
                } else {
                    out.push(b[j]);
                    j += 1;
                }
            }
            v.push(Tok::Str(out));
            i = j + 1;
        } else if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let mut j = i + 1;
            while j < b.len() && word(b[j]) {
                j += 1;
            }
            match s[i..j].parse::<i128>() {
                Ok(n) => v.push(Tok::Num(n)),
                Err(_) => v.push(Tok::Id(s[i..j].to_string())),
            }
            i = j;
        } else if word(c) {
            let mut j = i + 1;
            while j < b.len() && word(b[j]) {
                j += 1;
            }
            v.push(Tok::Id(s[i..j].to_string()));
            i = j;
        } else {
            v.push(Tok::P(c as char));
            i += 1;
        }
    }
    v
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    m: &'a mut Module,
    types: &'a HashMap<String, Ty>,
    regs: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eol")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?}", c, self.peek()))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn skip_parens(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::P('(') | Tok::P('{') | Tok::P('[') => d += 1,
                Tok::P(')') | Tok::P('}') | Tok::P(']') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => {
                s == "ptr" || s == "void" || s == "float" || s == "double" || s == "metadata" || s == "label" || s == "half"
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Loc(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let base = match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "ptr" => {
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "half" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "metadata" => Ty::Meta,
                "label" => Ty::Meta,
                _ => {
                    if s.starts_with('i') {
                        Ty::Int(s[1..].parse().map_err(|_| format!("type {}", s))?)
                    } else {
                        return Err(format!("type? {}", s));
                    }
                }
            },
            Tok::Loc(n) => self.types.get(&n).cloned().ok_or(format!("named type {}", n))?,
            Tok::P('{') => {
                let mut ts = Vec::new();
                while !self.eat_p('}') {
                    ts.push(self.ty()?);
                    self.eat_p(',');
                }
                Ty::Struct(ts, false)
            }
            Tok::P('[') => {
                let n = match self.next()? {
                    Tok::Num(n) => n as u64,
                    t => return Err(format!("arr {:?}", t)),
                };
                self.next()?; // x
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut ts = Vec::new();
                    while !self.eat_p('}') {
                        ts.push(self.ty()?);
                        self.eat_p(',');
                    }
                    self.exp_p('>')?;
                    Ty::Struct(ts, true)
                } else {
                    let n = match self.next()? {
                        Tok::Num(n) => n as u64,
                        t => return Err(format!("vec {:?}", t)),
                    };
                    self.next()?;
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            t => return Err(format!("type tok {:?}", t)),
        };
        Ok(base)
    }
    /// Skip parameter/return attributes until something that can start a value or type.
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    let s = s.clone();
                    match s.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint"
                        | "getelementptr" | "splat" | "none" | "asm" | "bitcast" | "add" | "sub" | "trunc" | "xor" | "c" => return Ok(()),
                        _ => {}
                    }
                    if self.is_type_start() {
                        return Ok(());
                    }
                    self.i += 1;
                    if s == "align" || s == "addrspace" {
                        if self.is_p('(') {
                            self.skip_parens()?;
                        } else {
                            self.i += 1;
                        }
                    } else if self.is_p('(') {
                        self.skip_parens()?;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr) => {
                    self.i += 1;
                }
                _ => return Ok(()),
            }
        }
    }
    fn gaddr(&mut self, n: &str) -> R<u64> {
        if let Some(f) = self.m.fidx.get(n) {
            return Ok((FN_TAG + *f as u64) << 32);
        }
        if let Some(g) = self.m.gidx.get(n) {
            return Ok((GLOBAL_BASE + *g as u64) << 32);
        }
        Err(format!("global {}", n))
    }
    fn cst(&mut self, ty: &Ty) -> R<Cst> {
        let t = self.next()?;
        Ok(match t {
            Tok::Num(n) => {
                let w = ty.width();
                let v = n as u64;
                if w > 64 {
                    return Ok(Cst::Agg(vec![Cst::Int(v), Cst::Int(((n >> 64) as u64) & if w == 128 { !0 } else { (1u64 << (w - 64)) - 1 })]));
                }
                Cst::Int(if w < 64 { v & ((1u64 << w) - 1) } else { v })
            }
            Tok::Glob(n) => Cst::Int(self.gaddr(&n)?),
            Tok::Str(b) => Cst::Agg(b.into_iter().map(|x| Cst::Int(x as u64)).collect()),
            Tok::Id(s) => match s.as_str() {
                "true" => Cst::Int(1),
                "false" | "null" | "none" => Cst::Int(0),
                "undef" | "poison" | "zeroinitializer" => zero(ty),
                "splat" => {
                    self.exp_p('(')?;
                    let et = self.ty()?;
                    let c = self.cst(&et)?;
                    self.exp_p(')')?;
                    let n = match ty {
                        Ty::Vec(n, _) => *n,
                        _ => return Err("splat".into()),
                    };
                    Cst::Agg((0..n).map(|_| c.clone()).collect())
                }
                "inttoptr" | "ptrtoint" | "bitcast" => {
                    self.exp_p('(')?;
                    let t1 = self.ty()?;
                    let c = self.cst(&t1)?;
                    if !self.eat_id("to") {
                        return Err("to".into());
                    }
                    self.ty()?;
                    self.exp_p(')')?;
                    c
                }
                "getelementptr" => {
                    while matches!(self.peek(), Some(Tok::Id(_))) && !self.is_p('(') {
                        self.i += 1;
                        if self.is_p('(') && !self.is_type_after_paren() {
                            self.skip_parens()?;
                        }
                    }
                    self.exp_p('(')?;
                    let t1 = self.ty()?;
                    self.exp_p(',')?;
                    let bt = self.ty()?;
                    let b = match self.cst(&bt)? {
                        Cst::Int(x) => x,
                        _ => return Err("gep base".into()),
                    };
                    let mut idx = Vec::new();
                    while self.eat_p(',') {
                        let it = self.ty()?;
                        match self.cst(&it)? {
                            Cst::Int(x) => idx.push(sx(x, it.width())),
                            _ => return Err("gep idx".into()),
                        }
                    }
                    self.exp_p(')')?;
                    let mut off = 0i64;
                    let mut cur = t1;
                    for (k, x) in idx.iter().enumerate() {
                        if k == 0 {
                            off += x * cur.alloc_size() as i64;
                        } else {
                            match cur.clone() {
                                Ty::Arr(_, t) | Ty::Vec(_, t) => {
                                    off += x * t.alloc_size() as i64;
                                    cur = *t;
                                }
                                Ty::Struct(ts, _) => {
                                    off += cur.field_off(*x as usize) as i64;
                                    cur = ts[*x as usize].clone();
                                }
                                _ => return Err("gep ty".into()),
                            }
                        }
                    }
                    Cst::Int(b.wrapping_add(off as u64))
                }
                "sub" | "add" | "xor" | "trunc" => return Err(format!("constexpr {}", s)),
                _ => return Err(format!("const id {}", s)),
            },
            Tok::P('{') | Tok::P('[') => {
                let close = if t == Tok::P('{') { '}' } else { ']' };
                let mut v = Vec::new();
                while !self.eat_p(close) {
                    let et = self.ty()?;
                    v.push(self.cst(&et)?);
                    self.eat_p(',');
                }
                Cst::Agg(v)
            }
            Tok::P('<') => {
                let brace = self.eat_p('{');
                let mut v = Vec::new();
                loop {
                    if brace && self.eat_p('}') {
                        self.exp_p('>')?;
                        break;
                    }
                    if !brace && self.eat_p('>') {
                        break;
                    }
                    let et = self.ty()?;
                    v.push(self.cst(&et)?);
                    self.eat_p(',');
                }
                Cst::Agg(v)
            }
            t => return Err(format!("const {:?}", t)),
        })
    }
    fn is_type_after_paren(&self) -> bool {
        // `getelementptr inbounds (i8, ...` versus `inrange(-16, 32) (`
        match self.t.get(self.i + 1) {
            Some(Tok::Num(_)) => false,
            _ => true,
        }
    }
    fn opnd(&mut self, ty: &Ty) -> R<Opnd> {
        if let Some(Tok::Loc(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opnd::R(self.reg(&n)));
        }
        if *ty == Ty::Meta {
            self.i += 1;
            return Ok(Opnd::C(0));
        }
        match self.cst(ty)? {
            Cst::Int(x) => Ok(Opnd::C(x)),
            a => {
                self.m.aggs.push(a);
                Ok(Opnd::A(self.m.aggs.len() as u32 - 1))
            }
        }
    }
    fn tyop(&mut self) -> R<(Ty, Opnd)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let o = self.opnd(&t)?;
        Ok((t, o))
    }
}

pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn zero(ty: &Ty) -> Cst {
    match ty {
        Ty::Arr(n, t) | Ty::Vec(n, t) => Cst::Agg((0..*n).map(|_| zero(t)).collect()),
        Ty::Struct(ts, _) => Cst::Agg(ts.iter().map(zero).collect()),
        Ty::Int(w) if *w > 64 => Cst::Agg(vec![Cst::Int(0), Cst::Int(0)]),
        _ => Cst::Int(0),
    }
}

pub fn shape(t: &Ty) -> R<Shape> {
    Ok(match t {
        Ty::Int(128) => Shape::S(vec![(0, Shape::I(64)), (8, Shape::I(64))]),
        Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Shape::I(t.width()),
        Ty::Vec(n, e) => Shape::V(*n, e.width()),
        Ty::Struct(ts, _) => {
            let mut v = Vec::new();
            for (i, x) in ts.iter().enumerate() {
                v.push((t.field_off(i), shape(x)?));
            }
            Shape::S(v)
        }
        Ty::Arr(n, e) => {
            let mut v = Vec::new();
            for i in 0..*n {
                v.push((i * e.alloc_size(), shape(e)?));
            }
            Shape::S(v)
        }
        _ => return Err("shape".into()),
    })
}

fn binop(s: &str) -> Option<Bin> {
    Some(match s {
        "add" => Bin::Add,
        "sub" => Bin::Sub,
        "mul" => Bin::Mul,
        "udiv" => Bin::UDiv,
        "sdiv" => Bin::SDiv,
        "urem" => Bin::URem,
        "srem" => Bin::SRem,
        "shl" => Bin::Shl,
        "lshr" => Bin::LShr,
        "ashr" => Bin::AShr,
        "and" => Bin::And,
        "or" => Bin::Or,
        "xor" => Bin::Xor,
        _ => return None,
    })
}

fn pred(s: &str) -> Option<Pred> {
    Some(match s {
        "eq" => Pred::Eq,
        "ne" => Pred::Ne,
        "ult" => Pred::Ult,
        "ule" => Pred::Ule,
        "ugt" => Pred::Ugt,
        "uge" => Pred::Uge,
        "slt" => Pred::Slt,
        "sle" => Pred::Sle,
        "sgt" => Pred::Sgt,
        "sge" => Pred::Sge,
        _ => return None,
    })
}

enum RawIns {
    Done(Ins),
    Phi(u32, Vec<(Opnd, String)>),
    Br(String),
    CondBr(Opnd, String, String),
    Switch(Opnd, u32, String, Vec<(u64, String)>),
    CallBr(Ins, String),
}

fn func_name_in_define(l: &str) -> Option<String> {
    let toks = lex(l);
    for t in toks {
        if let Tok::Glob(n) = t {
            return Some(n);
        }
    }
    None
}

pub fn parse_module(text: &str) -> R<Module> {
    let mut m = Module::default();
    let mut types: HashMap<String, Ty> = HashMap::new();
    let lines: Vec<&str> = text.split('\n').collect();
    // pass 1: names
    for l in &lines {
        if l.starts_with("define ") || l.starts_with("declare ") {
            let n = func_name_in_define(l).ok_or("fn name")?;
            let idx = m.funcs.len() as u32;
            m.fidx.insert(n.clone(), idx);
            m.funcs.push(Func { name: n, defined: l.starts_with("define "), ..Default::default() });
        } else if l.starts_with('@') {
            let n = func_name_in_define(&l[..l.find(" = ").ok_or("global")?]).ok_or("g")?;
            let idx = m.globals.len() as u32;
            m.gidx.insert(n.clone(), idx);
            m.globals.push(Global { name: n, ..Default::default() });
        } else if l.starts_with('%') && l.contains(" = type ") {
            let eq = l.find(" = type ").unwrap();
            let name = l[1..eq].trim_matches('"').to_string();
            let toks = lex(&l[eq + 8..]);
            let mut dm = Module::default();
            let mut p = P { t: toks, i: 0, m: &mut dm, types: &types, regs: HashMap::new() };
            if let Ok(t) = p.ty() {
                types.insert(name, t);
            }
        }
    }
    // pass 2: globals
    for l in &lines {
        if l.starts_with('@') {
            parse_global(&mut m, &types, l).map_err(|e| format!("{}: {}", e, &l[..l.len().min(200)]))?;
        }
    }
    // pass 3: functions
    let mut i = 0;
    while i < lines.len() {
        if lines[i].starts_with("define ") {
            let st = i;
            while lines[i] != "}" {
                i += 1;
            }
            parse_func(&mut m, &types, &lines[st..i]).map_err(|e| format!("{} in {}", e, &lines[st][..lines[st].len().min(200)]))?;
        }
        i += 1;
    }
    Ok(m)
}

fn parse_global(m: &mut Module, types: &HashMap<String, Ty>, l: &str) -> R<()> {
    let toks = lex(l);
    let mut p = P { t: toks, i: 0, m, types, regs: HashMap::new() };
    let n = match p.next()? {
        Tok::Glob(n) => n,
        _ => return Err("g".into()),
    };
    p.exp_p('=')?;
    let mut external = false;
    let mut constant = false;
    loop {
        match p.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                p.i += 1;
                match s.as_str() {
                    "external" | "extern_weak" => external = true,
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => break,
                    "alias" => return Err("alias".into()),
                    "addrspace" | "thread_local" => {
                        if p.is_p('(') {
                            p.skip_parens()?;
                        }
                    }
                    _ => {}
                }
            }
            _ => return Err("global kw".into()),
        }
    }
    let ty = p.ty()?;
    let size = ty.alloc_size();
    let mut bytes = vec![0u8; size as usize];
    if !external {
        let c = p.cst(&ty)?;
        fill(&mut bytes, 0, &ty, &c);
    }
    let gi = p.m.gidx[&n] as usize;
    let g = &mut p.m.globals[gi];
    g.bytes = bytes;
    g.constant = constant;
    g.external = external;
    Ok(())
}

fn fill(b: &mut [u8], off: u64, ty: &Ty, c: &Cst) {
    match (ty, c) {
        (Ty::Arr(_, t), Cst::Agg(v)) | (Ty::Vec(_, t), Cst::Agg(v)) => {
            let s = t.alloc_size();
            for (i, x) in v.iter().enumerate() {
                fill(b, off + i as u64 * s, t, x);
            }
        }
        (Ty::Struct(ts, _), Cst::Agg(v)) => {
            for (i, x) in v.iter().enumerate() {
                fill(b, off + ty.field_off(i), &ts[i], x);
            }
        }
        (_, Cst::Int(x)) => {
            let n = ty.store_size() as usize;
            for k in 0..n.min(8) {
                b[off as usize + k] = (x >> (8 * k)) as u8;
            }
        }
        _ => panic!("fill {:?} {:?}", ty, c),
    }
}

fn parse_func(m: &mut Module, types: &HashMap<String, Ty>, lines: &[&str]) -> R<()> {
    // header
    let toks = lex(lines[0]);
    let mut p = P { t: toks, i: 1, m, types, regs: HashMap::new() };
    // find @name
    let mut k = 0;
    while !matches!(p.t[k], Tok::Glob(_)) {
        k += 1;
    }
    let name = match &p.t[k] {
        Tok::Glob(n) => n.clone(),
        _ => unreachable!(),
    };
    p.i = k + 1;
    p.exp_p('(')?;
    let mut nparams = 0u32;
    let mut has_named = true;
    while !p.eat_p(')') {
        if p.eat_p(',') {
            continue;
        }
        if p.eat_p('.') || p.eat_id("...") {
            continue;
        }
        p.ty()?;
        p.skip_attrs()?;
        if let Some(Tok::Loc(n)) = p.peek() {
            let n = n.clone();
            p.i += 1;
            let r = p.reg(&n);
            if r != nparams {
                return Err("param order".into());
            }
        } else {
            has_named = false;
            let nm = format!("__unnamed{}", nparams);
            p.reg(&nm);
        }
        nparams += 1;
    }
    let _ = has_named;
    // body: join logical lines
    let mut logical: Vec<String> = Vec::new();
    let mut j = 1;
    while j < lines.len() {
        let l = lines[j];
        if l.trim().is_empty() || l.trim_start().starts_with(';') {
            j += 1;
            continue;
        }
        if l.trim_start().starts_with("#dbg") {
            j += 1;
            continue;
        }
        let mut s = l.to_string();
        if l.trim_start().starts_with("switch ") {
            while !s.trim_end().ends_with(']') && !s.contains("], !") && !s.trim_end().ends_with("]") {
                j += 1;
                s.push(' ');
                s.push_str(lines[j]);
                if lines[j].trim_start().starts_with(']') {
                    break;
                }
            }
        } else if l.contains(" invoke ") || l.trim_start().starts_with("invoke ") {
            j += 1;
            s.push(' ');
            s.push_str(lines[j]);
        }
        logical.push(s);
        j += 1;
    }
    struct Blk {
        name: String,
        ins: Vec<RawIns>,
    }
    let mut blocks: Vec<Blk> = Vec::new();
    let mut slab = 0u64;
    for s in &logical {
        if !s.starts_with(' ') && !s.starts_with('\t') {
            // label
            let e = s.find(':').ok_or("label")?;
            let n = s[..e].trim_matches('"').to_string();
            blocks.push(Blk { name: n, ins: vec![] });
            continue;
        }
        if blocks.is_empty() {
            blocks.push(Blk { name: format!("{}", nparams), ins: vec![] });
        }
        p.t = lex(s);
        p.i = 0;
        let r = parse_ins(&mut p, &mut slab);
        let ins = match r {
            Ok(x) => x,
            Err(e) => RawIns::Done(Ins::Unsupported(format!("{}: {}", e, s.chars().take(160).collect::<String>()))),
        };
        blocks.last_mut().unwrap().ins.push(ins);
    }
    // layout
    let mut bidx: HashMap<String, usize> = HashMap::new();
    for (i, b) in blocks.iter().enumerate() {
        bidx.insert(b.name.clone(), i);
    }
    let mut starts = Vec::new();
    let mut pos = 0u32;
    for b in &blocks {
        starts.push(pos);
        for x in &b.ins {
            match x {
                RawIns::Phi(..) => {}
                RawIns::CallBr(..) => pos += 2,
                _ => pos += 1,
            }
        }
    }
    let mut code = Vec::new();
    let mut edges: Vec<Edge> = Vec::new();
    let mk = |from: &str, to: &str, edges: &mut Vec<Edge>| -> R<u32> {
        let t = *bidx.get(to).ok_or(format!("block {}", to))?;
        let mut phis = Vec::new();
        for x in &blocks[t].ins {
            if let RawIns::Phi(d, v) = x {
                let (o, _) = v.iter().find(|(_, l)| l == from).ok_or(format!("phi edge {} {}", from, to))?;
                phis.push((*d, o.clone()));
            }
        }
        edges.push(Edge { target: starts[t], phis });
        Ok(edges.len() as u32 - 1)
    };
    for b in &blocks {
        for x in &b.ins {
            match x {
                RawIns::Done(i) => code.push(i.clone()),
                RawIns::Phi(..) => {}
                RawIns::Br(t) => {
                    let e = mk(&b.name, t, &mut edges)?;
                    code.push(Ins::Br(e));
                }
                RawIns::CondBr(c, t, f) => {
                    let e1 = mk(&b.name, t, &mut edges)?;
                    let e2 = mk(&b.name, f, &mut edges)?;
                    code.push(Ins::CondBr(c.clone(), e1, e2));
                }
                RawIns::Switch(c, w, d, cs) => {
                    let de = mk(&b.name, d, &mut edges)?;
                    let mut v = Vec::new();
                    for (k, t) in cs {
                        v.push((*k, mk(&b.name, t, &mut edges)?));
                    }
                    code.push(Ins::Switch(c.clone(), *w, de, v));
                }
                RawIns::CallBr(i, t) => {
                    code.push(i.clone());
                    let e = mk(&b.name, t, &mut edges)?;
                    code.push(Ins::Br(e));
                }
            }
        }
    }
    let nregs = p.regs.len() as u32;
    let fi = p.m.fidx[&name] as usize;
    let f = &mut p.m.funcs[fi];
    f.nparams = nparams;
    f.nregs = nregs;
    f.slab = slab;
    f.code = code;
    f.edges = edges;
    Ok(())
}

fn parse_label(p: &mut P) -> R<String> {
    if !p.eat_id("label") {
        return Err("label".into());
    }
    match p.next()? {
        Tok::Loc(n) => Ok(n),
        t => Err(format!("label {:?}", t)),
    }
}

fn parse_ins(p: &mut P, slab: &mut u64) -> R<RawIns> {
    let mut dst = None;
    if let Some(Tok::Loc(n)) = p.peek() {
        let n = n.clone();
        p.i += 1;
        dst = Some(p.reg(&n));
        p.exp_p('=')?;
    }
    let op = match p.next()? {
        Tok::Id(s) => s,
        t => return Err(format!("op {:?}", t)),
    };
    if let Some(b) = binop(&op) {
        loop {
            if p.is_type_start() {
                break;
            }
            p.i += 1;
        }
        let t = p.ty()?;
        let a = p.opnd(&t)?;
        p.exp_p(',')?;
        let c = p.opnd(&t)?;
        return Ok(RawIns::Done(match &t {
            Ty::Vec(n, e) => Ins::VBin(b, e.width(), *n, dst.unwrap(), a, c),
            Ty::Int(w) if *w <= 64 || *w == 128 => Ins::Bin(b, *w, dst.unwrap(), a, c),
            _ => return Err("bin type".into()),
        }));
    }
    match op.as_str() {
        "alloca" => {
            let t = p.ty()?;
            let mut size = t.alloc_size();
            let mut align = t.align();
            while p.eat_p(',') {
                if p.eat_id("align") {
                    if let Tok::Num(n) = p.next()? {
                        align = n as u64;
                    }
                } else if let Some(Tok::Meta(_)) = p.peek() {
                    p.i += 1;
                } else {
                    let (_, o) = p.tyop()?;
                    match o {
                        Opnd::C(n) => size *= n,
                        _ => return Err("dynamic alloca".into()),
                    }
                }
            }
            let a = align.max(1);
            *slab = (*slab + a - 1) / a * a;
            let off = *slab;
            *slab += size.max(1) + 8;
            Ok(RawIns::Done(Ins::Alloca(dst.unwrap(), off)))
        }
        "load" => {
            p.eat_id("atomic");
            p.eat_id("volatile");
            let t = p.ty()?;
            p.exp_p(',')?;
            let (_, a) = p.tyop()?;
            Ok(RawIns::Done(Ins::Load(dst.unwrap(), chk(shape(&t)?)?, a)))
        }
        "store" => {
            p.eat_id("atomic");
            p.eat_id("volatile");
            let (t, v) = p.tyop()?;
            p.exp_p(',')?;
            let (_, a) = p.tyop()?;
            Ok(RawIns::Done(Ins::Store(chk(shape(&t)?)?, v, a)))
        }
        "getelementptr" => {
            loop {
                if p.is_type_start() {
                    break;
                }
                p.i += 1;
                if p.is_p('(') {
                    p.skip_parens()?;
                }
            }
            let t = p.ty()?;
            p.exp_p(',')?;
            let (bt, base) = p.tyop()?;
            if bt != Ty::Ptr {
                return Err("vector gep".into());
            }
            let mut off = 0u64;
            let mut idx = Vec::new();
            let mut cur = t;
            let mut k = 0;
            while p.eat_p(',') {
                if matches!(p.peek(), Some(Tok::Meta(_))) {
                    break;
                }
                let (it, o) = p.tyop()?;
                let scale;
                if k == 0 {
                    scale = cur.alloc_size();
                } else {
                    match cur.clone() {
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            scale = e.alloc_size();
                            cur = *e;
                        }
                        Ty::Struct(ts, _) => {
                            if let Opnd::C(x) = o {
                                off = off.wrapping_add(cur.field_off(x as usize));
                                cur = ts[x as usize].clone();
                                k += 1;
                                continue;
                            }
                            return Err("gep struct".into());
                        }
                        _ => return Err("gep into scalar".into()),
                    }
                }
                match o {
                    Opnd::C(x) => off = off.wrapping_add((sx(x, it.width()) as u64).wrapping_mul(scale)),
                    o => idx.push((o, it.width(), scale)),
                }
                k += 1;
            }
            Ok(RawIns::Done(Ins::Gep(dst.unwrap(), base, off, idx)))
        }
        "icmp" => {
            p.eat_id("samesign");
            let pr = match p.next()? {
                Tok::Id(s) => pred(&s).ok_or("pred")?,
                _ => return Err("pred".into()),
            };
            let t = p.ty()?;
            let a = p.opnd(&t)?;
            p.exp_p(',')?;
            let b = p.opnd(&t)?;
            Ok(RawIns::Done(match &t {
                Ty::Vec(n, e) => Ins::VIcmp(pr, e.width(), *n, dst.unwrap(), a, b),
                _ if (t.width() <= 64 && t.width() > 0) || t.width() == 128 => Ins::Icmp(pr, t.width(), dst.unwrap(), a, b),
                _ => return Err("icmp type".into()),
            }))
        }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "freeze" => {
            while !p.is_type_start() {
                p.i += 1;
            }
            let t = p.ty()?;
            let a = p.opnd(&t)?;
            if op == "freeze" {
                return Ok(RawIns::Done(Ins::Copy(dst.unwrap(), a)));
            }
            if !p.eat_id("to") {
                return Err("to".into());
            }
            let t2 = p.ty()?;
            let d = dst.unwrap();
            let (w1, w2) = (t.width(), t2.width());
            if op == "bitcast" {
                return Ok(RawIns::Done(Ins::BitcastV(d, shape(&t)?, shape(&t2)?, a)));
            }
            if let (Ty::Vec(_, e1), Ty::Vec(_, e2)) = (&t, &t2) {
                let k = match op.as_str() {
                    "zext" => 0,
                    "sext" => 1,
                    "trunc" => 2,
                    _ => return Err("vcast".into()),
                };
                return Ok(RawIns::Done(Ins::VCast(k, e1.width(), e2.width(), d, a)));
            }
            let okw = |w: u32| (w > 0 && w <= 64) || w == 128;
            if !okw(w1) || !okw(w2) {
                return Err("cast width".into());
            }
            Ok(RawIns::Done(match op.as_str() {
                "zext" => Ins::Zext(w1, w2, d, a),
                "sext" => Ins::Sext(w1, w2, d, a),
                "trunc" => Ins::Trunc(w1, w2, d, a),
                _ => {
                    if w1 == w2 {
                        Ins::Copy(d, a)
                    } else if w1 < w2 {
                        Ins::Zext(w1, w2, d, a)
                    } else {
                        Ins::Trunc(w1, w2, d, a)
                    }
                }
            }))
        }
        "select" => {
            let (ct, c) = p.tyop()?;
            p.exp_p(',')?;
            let (t, a) = p.tyop()?;
            p.exp_p(',')?;
            let (_, b) = p.tyop()?;
            let w = match (&ct, &t) {
                (Ty::Int(1), Ty::Int(128)) => 0,
                (Ty::Int(1), t) => t.width(),
                (_, Ty::Vec(_, e)) => e.width(),
                _ => return Err("select type".into()),
            };
            Ok(RawIns::Done(Ins::Select(dst.unwrap(), w, c, a, b)))
        }
        "phi" => {
            let t = p.ty()?;
            let mut v = Vec::new();
            loop {
                p.exp_p('[')?;
                let o = p.opnd(&t)?;
                p.exp_p(',')?;
                let l = match p.next()? {
                    Tok::Loc(n) => n,
                    _ => return Err("phi lbl".into()),
                };
                p.exp_p(']')?;
                v.push((o, l));
                if !p.eat_p(',') {
                    break;
                }
                if !p.is_p('[') {
                    break;
                }
            }
            Ok(RawIns::Phi(dst.unwrap(), v))
        }
        "br" => {
            if p.is_id("label") {
                let l = parse_label(p)?;
                return Ok(RawIns::Br(l));
            }
            let (_, c) = p.tyop()?;
            p.exp_p(',')?;
            let a = parse_label(p)?;
            p.exp_p(',')?;
            let b = parse_label(p)?;
            Ok(RawIns::CondBr(c, a, b))
        }
        "switch" => {
            let (t, c) = p.tyop()?;
            p.exp_p(',')?;
            let d = parse_label(p)?;
            p.exp_p('[')?;
            let mut v = Vec::new();
            while !p.eat_p(']') {
                let t2 = p.ty()?;
                let k = match p.cst(&t2)? {
                    Cst::Int(x) => x,
                    _ => return Err("switch".into()),
                };
                p.exp_p(',')?;
                v.push((k, parse_label(p)?));
            }
            Ok(RawIns::Switch(c, t.width(), d, v))
        }
        "ret" => {
            if p.eat_id("void") {
                return Ok(RawIns::Done(Ins::Ret(None)));
            }
            let (_, v) = p.tyop()?;
            Ok(RawIns::Done(Ins::Ret(Some(v))))
        }
        "unreachable" | "resume" => Ok(RawIns::Done(Ins::Unreachable)),
        "landingpad" => Ok(RawIns::Done(Ins::Unreachable)),
        "fence" => Ok(RawIns::Done(Ins::Copy(p.reg("__fence"), Opnd::C(0)))),
        "extractvalue" => {
            let (_, a) = p.tyop()?;
            let mut v = Vec::new();
            while p.eat_p(',') {
                if let Some(Tok::Num(n)) = p.peek() {
                    v.push(*n as u32);
                    p.i += 1;
                } else {
                    break;
                }
            }
            Ok(RawIns::Done(Ins::Extract(dst.unwrap(), a, v)))
        }
        "insertvalue" => {
            let (_, a) = p.tyop()?;
            p.exp_p(',')?;
            let (_, b) = p.tyop()?;
            let mut v = Vec::new();
            while p.eat_p(',') {
                if let Some(Tok::Num(n)) = p.peek() {
                    v.push(*n as u32);
                    p.i += 1;
                } else {
                    break;
                }
            }
            Ok(RawIns::Done(Ins::Insert(dst.unwrap(), a, b, v)))
        }
        "extractelement" => {
            let (_, a) = p.tyop()?;
            p.exp_p(',')?;
            let (_, i) = p.tyop()?;
            Ok(RawIns::Done(Ins::ExtElem(dst.unwrap(), a, i)))
        }
        "insertelement" => {
            let (_, a) = p.tyop()?;
            p.exp_p(',')?;
            let (_, b) = p.tyop()?;
            p.exp_p(',')?;
            let (_, i) = p.tyop()?;
            Ok(RawIns::Done(Ins::InsElem(dst.unwrap(), a, b, i)))
        }
        "shufflevector" => {
            let (_, a) = p.tyop()?;
            p.exp_p(',')?;
            let (_, b) = p.tyop()?;
            p.exp_p(',')?;
            let mt = p.ty()?;
            let mask = match p.cst(&mt)? {
                Cst::Agg(v) => v
                    .iter()
                    .map(|c| match c {
                        Cst::Int(x) => sx(*x, 32) as i32,
                        _ => 0,
                    })
                    .collect(),
                _ => return Err("mask".into()),
            };
            Ok(RawIns::Done(Ins::Shuffle(dst.unwrap(), a, b, mask)))
        }
        "call" | "tail" | "musttail" | "notail" | "invoke" => {
            if op != "call" && op != "invoke" {
                p.eat_id("call");
            }
            // calling convention and return attributes
            p.skip_attrs()?;
            let rt = p.ty()?;
            // optional function type
            if p.is_p('(') {
                p.skip_parens()?;
            }
            p.skip_attrs()?;
            let callee = match p.next()? {
                Tok::Glob(n) => {
                    let fi = *p.m.fidx.get(&n).ok_or("callee")?;
                    if p.m.funcs[fi as usize].defined {
                        Callee::Fn(fi)
                    } else {
                        Callee::Ext(n)
                    }
                }
                Tok::Loc(n) => Callee::Ind(Opnd::R(p.reg(&n))),
                t => return Err(format!("callee {:?}", t)),
            };
            p.exp_p('(')?;
            let mut args = Vec::new();
            while !p.eat_p(')') {
                if p.eat_p(',') {
                    continue;
                }
                let t = p.ty()?;
                if t == Ty::Meta {
                    while !p.is_p(',') && !p.is_p(')') {
                        if p.is_p('(') {
                            p.skip_parens()?;
                        } else {
                            p.i += 1;
                        }
                    }
                    args.push(Opnd::C(0));
                    continue;
                }
                p.skip_attrs()?;
                args.push(p.opnd(&t)?);
            }
            let rw = match &rt {
                Ty::Struct(ts, _) => ts.get(0).map(|t| t.width()).unwrap_or(0),
                Ty::Vec(_, e) => e.width(),
                t => t.width(),
            };
            let ins = Ins::Call(dst, callee, args, rw);
            if op == "invoke" {
                while !p.is_id("to") {
                    p.i += 1;
                }
                p.i += 1;
                let l = parse_label(p)?;
                return Ok(RawIns::CallBr(ins, l));
            }
            Ok(RawIns::Done(ins))
        }
        _ => Err(format!("opcode {}", op)),
    }
}

fn chk(s: Shape) -> R<Shape> {
    match &s {
        Shape::I(w) if *w > 64 => Err("wide int".into()),
        _ => Ok(s),
    }
}
