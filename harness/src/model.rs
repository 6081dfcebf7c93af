//! Reference model: a plain reading of RFC 5322 / 2045 / 2047 / 2183 / 2231 over byte positions, written
//! independently of the implementation (no shared combinators, no slices handed around). It is executed
//! next to the real code on the same symbolic bytes.

use crate::charsets;

/// A reported string: its bytes, and where it was written if it is one contiguous piece of the input.
#[derive(Clone)]
pub struct S {
    pub b: Vec<u8>,
    pub from: usize,
    pub to: usize,
    pub copied: bool,
}
impl S {
    pub fn new() -> S {
        S { b: Vec::new(), from: 0, to: 0, copied: false }
    }
    pub fn lit(x: &[u8]) -> S {
        S { b: x.to_vec(), from: 0, to: 0, copied: true }
    }
    pub fn is(&self, x: &[u8]) -> bool {
        same(&self.b, x)
    }
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn lower(c: u8) -> u8 {
    if c >= b'A' && c <= b'Z' {
        c + 32
    } else {
        c
    }
}
pub fn lowered(mut s: S) -> S {
    let mut i = 0;
    while i < s.b.len() {
        let l = lower(s.b[i]);
        if l != s.b[i] {
            s.b[i] = l;
            s.copied = true;
        }
        i += 1;
    }
    s
}

#[derive(Clone)]
pub struct Dt {
    pub day_name: u8, // 0 none, 1 Monday .. 7
    pub day: u8,
    pub month: u8, // 1..12
    pub year: usize,
    pub h: u8,
    pub m: u8,
    pub s: u8,
    pub plus: bool,
    pub zh: u8,
    pub zm: u8,
}
#[derive(Clone)]
pub struct Ad {
    pub local: S,
    pub domain: S,
}
#[derive(Clone)]
pub struct Mb {
    pub name: Option<Vec<S>>,
    pub ad: Ad,
}
pub enum Address {
    M(Mb),
    G(Vec<S>, Vec<Mb>),
}
pub type Id = (S, S);
pub enum Tok {
    Word(S),
    Addr(Ad),
    Domain(S),
}
pub enum Resent {
    Date(Dt),
    From(Vec<Mb>),
    Sender(Mb),
    To(Vec<Address>),
    Cc(Vec<Address>),
    Bcc(Vec<Address>),
    Id(Id),
}
#[derive(Clone)]
pub struct Disp {
    pub ty: u8, // 0 inline 1 attachment 2 unknown
    pub name: S,
    pub filename: Option<S>,
    pub creation: Option<Dt>,
    pub modification: Option<Dt>,
    pub read: Option<Dt>,
    pub params: Vec<(S, S)>,
}
#[derive(Clone)]
pub struct Ct {
    pub ty: u8, // index in TYPES, 7 unknown
    pub name: S,
    pub sub: S,
    pub params: Vec<(S, S)>,
}
pub const TYPES: [&[u8]; 7] = [b"text", b"image", b"audio", b"video", b"application", b"message", b"multipart"];
#[derive(Clone, Copy, PartialEq)]
pub enum Cte {
    Identity,
    Qp,
    B64,
    Other,
}
pub struct Trace {
    pub path: Option<Option<Ad>>,
    pub received: Vec<(Vec<Tok>, Dt)>,
    pub resent: Vec<Resent>,
}
pub enum F {
    Date(Dt),
    From(Vec<Mb>),
    Sender(Mb),
    ReplyTo(Vec<Address>),
    To(Vec<Address>),
    Cc(Vec<Address>),
    Bcc(Vec<Address>),
    MessageId(Id),
    InReplyTo(Vec<Id>),
    References(Vec<Id>),
    Subject(S),
    Comments(S),
    Keywords(Vec<Vec<S>>),
    Mime(u8, u8),
    ContentType(Ct),
    Encoding(Cte),
    ContentId(Id),
    Description(S),
    Disposition(Disp),
    Trace(Trace),
    Unknown(S, S),
}

pub struct P<'a> {
    pub s: &'a [u8],
    /// MIME headers and encoded words
    pub full: bool,
    /// empty atoms after a dot
    pub compat: bool,
}

fn is_wsp(c: i32) -> bool {
    c == 32 || c == 9
}
fn is_vchar(c: i32) -> bool {
    c >= 33 && c <= 126
}
fn is_digit(c: i32) -> bool {
    c >= 48 && c <= 57
}
fn among(c: i32, set: &[u8]) -> bool {
    for x in set {
        if c == *x as i32 {
            return true;
        }
    }
    false
}
const SPECIALS: &[u8] = b"()<>[]:;@\\,.\"";
const TSPECIALS: &[u8] = b"()<>@,;:\\\"/[]?=";
const ESPECIALS: &[u8] = b"()<>@,;:\"\\/[]?.=";
fn is_atext(c: i32) -> bool {
    is_vchar(c) && !among(c, SPECIALS)
}
fn is_ctext(c: i32) -> bool {
    is_vchar(c) && c != 40 && c != 41 && c != 92
}
fn is_qtext(c: i32) -> bool {
    is_vchar(c) && c != 34 && c != 92
}
fn is_dtext(c: i32) -> bool {
    is_vchar(c) && c != 91 && c != 92 && c != 93
}
fn is_ttext(c: i32) -> bool {
    is_vchar(c) && !among(c, TSPECIALS)
}
fn is_etext(c: i32) -> bool {
    is_vchar(c) && !among(c, ESPECIALS)
}

const MONTHS: &[u8] = b"janfebmaraprmayjunjulaugsepoctnovdec";
const DAYS: &[u8] = b"montuewedthufrisatsun";

impl<'a> P<'a> {
    pub fn at(&self, i: usize) -> i32 {
        if i < self.s.len() {
            self.s[i] as i32
        } else {
            -1
        }
    }
    fn add(&self, o: &mut S, a: usize, b: usize) {
        if a == b {
            return;
        }
        if o.b.is_empty() && !o.copied {
            o.from = a;
            o.to = b;
        } else if !o.copied && o.to == a {
            o.to = b;
        } else {
            o.copied = true;
        }
        let mut i = a;
        while i < b {
            o.b.push(self.s[i]);
            i += 1;
        }
    }
    fn cut(&self, a: usize, b: usize) -> S {
        let mut o = S::new();
        self.add(&mut o, a, b);
        o
    }
    fn crlf(&self, i: usize) -> bool {
        self.at(i) == 13 && self.at(i + 1) == 10
    }
    fn run(&self, mut i: usize, f: fn(i32) -> bool) -> usize {
        while f(self.at(i)) {
            i += 1;
        }
        i
    }
    /// FWS = ([*WSP CRLF] 1*WSP)
    fn fws(&self, i: usize) -> Option<usize> {
        let j = self.run(i, is_wsp);
        if self.crlf(j) && is_wsp(self.at(j + 2)) {
            return Some(self.run(j + 2, is_wsp));
        }
        if j > i {
            Some(j)
        } else {
            None
        }
    }
    fn add_fws(&self, o: &mut S, a: usize, b: usize) {
        let j = self.run(a, is_wsp);
        if j >= b {
            self.add(o, a, b);
        } else {
            self.add(o, a, j);
            self.add(o, j + 2, b);
        }
    }
    fn comment(&self, mut i: usize) -> Option<usize> {
        if self.at(i) != 40 {
            return None;
        }
        let mut depth = 0usize;
        let mut blank = false;
        loop {
            let c = self.at(i);
            if c == 40 {
                depth += 1;
                i += 1;
                blank = false;
            } else if c == 41 {
                depth -= 1;
                i += 1;
                blank = false;
                if depth == 0 {
                    return Some(i);
                }
            } else if c == 92 {
                let n = self.at(i + 1);
                if !is_vchar(n) && !is_wsp(n) {
                    return None;
                }
                i += 2;
                blank = false;
            } else if is_ctext(c) {
                i += 1;
                blank = false;
            } else {
                if blank {
                    return None;
                }
                i = self.fws(i)?;
                blank = true;
            }
        }
    }
    fn cfws1(&self, i: usize) -> Option<usize> {
        let mut p = i;
        let mut any = false;
        loop {
            let q = self.fws(p).unwrap_or(p);
            match self.comment(q) {
                Some(e) => {
                    p = e;
                    any = true;
                }
                None => break,
            }
        }
        if any {
            Some(self.fws(p).unwrap_or(p))
        } else {
            self.fws(i)
        }
    }
    fn cfws(&self, i: usize) -> usize {
        self.cfws1(i).unwrap_or(i)
    }
    fn atom(&self, i: usize) -> Option<(usize, S)> {
        let a = self.cfws(i);
        let b = self.run(a, is_atext);
        if b == a {
            return None;
        }
        Some((self.cfws(b), self.cut(a, b)))
    }
    fn dot_text(&self, i: usize) -> Option<usize> {
        let mut j = self.run(i, is_atext);
        if j == i {
            return None;
        }
        while self.at(j) == 46 {
            let k = self.run(j + 1, is_atext);
            if k == j + 1 && !self.compat {
                break;
            }
            j = k;
        }
        Some(j)
    }
    fn dot_atom(&self, i: usize) -> Option<(usize, S)> {
        let a = self.cfws(i);
        let b = self.dot_text(a)?;
        Some((self.cfws(b), self.cut(a, b)))
    }
    fn quoted(&self, i: usize) -> Option<(usize, S)> {
        let mut p = self.cfws(i);
        if self.at(p) != 34 {
            return None;
        }
        p += 1;
        let mut o = S::new();
        let mut blank = false;
        loop {
            let c = self.at(p);
            if c == 34 {
                return Some((self.cfws(p + 1), o));
            }
            if is_qtext(c) {
                self.add(&mut o, p, p + 1);
                p += 1;
                blank = false;
            } else if c == 92 {
                let n = self.at(p + 1);
                if !is_vchar(n) && !is_wsp(n) {
                    return None;
                }
                self.add(&mut o, p + 1, p + 2);
                p += 2;
                blank = false;
            } else {
                if blank {
                    return None;
                }
                let q = self.fws(p)?;
                self.add_fws(&mut o, p, q);
                p = q;
                blank = true;
            }
        }
    }
    fn word(&self, i: usize) -> Option<(usize, S)> {
        self.atom(i).or_else(|| self.quoted(i))
    }
    fn phrase(&self, i: usize) -> Option<(usize, Vec<S>)> {
        let mut p = i;
        let mut v = Vec::new();
        loop {
            if self.full {
                let q = self.cfws(p);
                if let Some((e, t)) = self.encoded_word(q) {
                    v.push(t);
                    p = self.cfws(e);
                    continue;
                }
            }
            match self.word(p) {
                Some((e, t)) => {
                    v.push(t);
                    p = e;
                }
                None => break,
            }
        }
        if v.is_empty() {
            None
        } else {
            Some((p, v))
        }
    }
    /// RFC 2047 encoded word starting exactly at i
    fn encoded_word(&self, i: usize) -> Option<(usize, S)> {
        if self.at(i) != 61 || self.at(i + 1) != 63 {
            return None;
        }
        let a = i + 2;
        let mut b = a;
        while is_etext(self.at(b)) && self.at(b) != 42 {
            b += 1;
        }
        if b == a {
            return None;
        }
        let mut p = b;
        if self.at(p) == 42 {
            let q = self.run(p + 1, is_etext);
            if q == p + 1 {
                return None;
            }
            p = q;
        }
        if self.at(p) != 63 {
            return None;
        }
        let e = p + 1;
        let f = self.run(e, is_etext);
        if f != e + 1 || self.at(f) != 63 {
            return None;
        }
        let t = f + 1;
        let mut u = t;
        while is_vchar(self.at(u)) && self.at(u) != 63 {
            u += 1;
        }
        if u == t || self.at(u) != 63 || self.at(u + 1) != 61 {
            return None;
        }
        let enc = lower(self.s[e]);
        let raw = if enc == b'b' {
            base64(&self.s[t..u])?
        } else if enc == b'q' {
            q_text(&self.s[t..u])
        } else {
            return None;
        };
        let cs = lowered(self.cut(a, b));
        match charsets::decode(&cs.b, &raw) {
            charsets::R::Text(t) => Some((u + 2, S { b: t, from: 0, to: 0, copied: true })),
            _ => None,
        }
    }
    /// [FWS] VCHAR runs, encoded words when `mime`
    fn text(&self, i: usize, mime: bool) -> (usize, S) {
        let mut p = i;
        let mut o = S::new();
        let mut last_encoded = false;
        loop {
            let q = self.fws(p).unwrap_or(p);
            if mime {
                if let Some((e, t)) = self.encoded_word(q) {
                    if !last_encoded {
                        self.add_fws(&mut o, p, q);
                    }
                    o.copied = true;
                    for c in t.b.iter() {
                        o.b.push(*c);
                    }
                    last_encoded = true;
                    p = e;
                    continue;
                }
            }
            let e = self.run(q, is_vchar);
            if e == q {
                break;
            }
            self.add_fws(&mut o, p, q);
            self.add(&mut o, q, e);
            last_encoded = false;
            p = e;
        }
        (self.run(p, is_wsp), o)
    }

    // ---- dates
    fn num2(&self, i: usize) -> Option<u8> {
        if is_digit(self.at(i)) && is_digit(self.at(i + 1)) {
            Some((self.s[i] - 48) * 10 + (self.s[i + 1] - 48))
        } else {
            None
        }
    }
    fn name3(&self, i: usize, list: &[u8]) -> u8 {
        if self.at(i + 2) < 0 {
            return 0;
        }
        let mut k = 0;
        while k * 3 < list.len() {
            if lower(self.s[i]) == list[k * 3] && lower(self.s[i + 1]) == list[k * 3 + 1] && lower(self.s[i + 2]) == list[k * 3 + 2] {
                return k as u8 + 1;
            }
            k += 1;
        }
        0
    }
    pub fn date_time(&self, i: usize) -> Option<(usize, Dt)> {
        let mut p = self.fws(i).unwrap_or(i);
        let mut day_name = 0;
        if !is_digit(self.at(p)) {
            day_name = self.name3(p, DAYS);
            if day_name == 0 || self.at(p + 3) != 44 {
                return None;
            }
            p += 4;
            p = self.fws(p).unwrap_or(p);
        }
        if !is_digit(self.at(p)) {
            return None;
        }
        let mut day = self.s[p] - 48;
        p += 1;
        if is_digit(self.at(p)) {
            day = day * 10 + (self.s[p] - 48);
            p += 1;
        }
        if day < 1 || day > 31 {
            return None;
        }
        p = self.fws(p)?;
        let month = self.name3(p, MONTHS);
        if month == 0 {
            return None;
        }
        p = self.fws(p + 3)?;
        let e = self.run(p, is_digit);
        if e - p < 4 {
            return None;
        }
        let mut year: usize = 0;
        while p < e {
            year = year.checked_mul(10)?.checked_add((self.s[p] - 48) as usize)?;
            p += 1;
        }
        if year < 1900 {
            return None;
        }
        p = self.fws(p)?;
        let h = self.num2(p)?;
        if h > 23 || self.at(p + 2) != 58 {
            return None;
        }
        let m = self.num2(p + 3)?;
        if m > 59 {
            return None;
        }
        p += 5;
        let mut s = 0;
        if self.at(p) == 58 {
            s = self.num2(p + 1)?;
            if s > 60 {
                return None;
            }
            p += 3;
        }
        p = self.fws(p)?;
        let sg = self.at(p);
        if sg != 43 && sg != 45 {
            return None;
        }
        let zh = self.num2(p + 1)?;
        let zm = self.num2(p + 3)?;
        if zm > 59 {
            return None;
        }
        p = self.cfws(p + 5);
        Some((p, Dt { day_name, day, month, year, h, m, s, plus: sg == 43, zh, zm }))
    }

    // ---- addresses
    fn domain(&self, i: usize) -> Option<(usize, S)> {
        if let Some(x) = self.dot_atom(i) {
            return Some(x);
        }
        let mut p = self.cfws(i);
        if self.at(p) != 91 {
            return None;
        }
        p += 1;
        let mut o = S::new();
        loop {
            let q = self.fws(p).unwrap_or(p);
            let e = self.run(q, is_dtext);
            if e == q {
                p = q;
                break;
            }
            self.add(&mut o, q, e);
            p = e;
        }
        if self.at(p) != 93 {
            return None;
        }
        Some((self.cfws(p + 1), o))
    }
    fn addr_spec(&self, i: usize) -> Option<(usize, Ad)> {
        let (p, local) = self.dot_atom(i).or_else(|| self.quoted(i))?;
        if self.at(p) != 64 {
            return None;
        }
        let (p, domain) = self.domain(p + 1)?;
        Some((p, Ad { local, domain }))
    }
    fn angle(&self, i: usize) -> Option<(usize, Ad)> {
        let p = self.cfws(i);
        if self.at(p) != 60 {
            return None;
        }
        let (p, a) = self.addr_spec(p + 1)?;
        if self.at(p) != 62 {
            return None;
        }
        Some((self.cfws(p + 1), a))
    }
    fn mailbox(&self, i: usize) -> Option<(usize, Mb)> {
        let (p, name) = match self.phrase(i) {
            Some((p, n)) => (p, Some(n)),
            None => (i, None),
        };
        if let Some((p, ad)) = self.angle(p) {
            return Some((p, Mb { name, ad }));
        }
        let (p, ad) = self.addr_spec(i)?;
        Some((p, Mb { name: None, ad }))
    }
    fn mailboxes(&self, i: usize) -> Option<(usize, Vec<Mb>)> {
        let (mut p, m) = self.mailbox(i)?;
        let mut v = vec![m];
        while self.at(p) == 44 {
            match self.mailbox(p + 1) {
                Some((q, m)) => {
                    v.push(m);
                    p = q;
                }
                None => break,
            }
        }
        Some((p, v))
    }
    fn address(&self, i: usize) -> Option<(usize, Address)> {
        if let Some((p, m)) = self.mailbox(i) {
            return Some((p, Address::M(m)));
        }
        let (p, name) = self.phrase(i)?;
        if self.at(p) != 58 {
            return None;
        }
        let (p, list) = match self.mailboxes(p + 1) {
            Some(x) => x,
            None => (self.cfws(p + 1), Vec::new()),
        };
        if self.at(p) != 59 {
            return None;
        }
        Some((self.cfws(p + 1), Address::G(name, list)))
    }
    fn addresses(&self, i: usize) -> Option<(usize, Vec<Address>)> {
        let (mut p, m) = self.address(i)?;
        let mut v = vec![m];
        while self.at(p) == 44 {
            match self.address(p + 1) {
                Some((q, m)) => {
                    v.push(m);
                    p = q;
                }
                None => break,
            }
        }
        Some((p, v))
    }
    fn bcc(&self, i: usize) -> Option<(usize, Vec<Address>)> {
        match self.addresses(i) {
            Some(x) => Some(x),
            None => Some((self.cfws(i), Vec::new())),
        }
    }
    fn msg_id(&self, i: usize) -> Option<(usize, Id)> {
        let p = self.cfws(i);
        if self.at(p) != 60 {
            return None;
        }
        let a = p + 1;
        let b = self.dot_text(a)?;
        if self.at(b) != 64 {
            return None;
        }
        let c = b + 1;
        let (right, q) = match self.dot_text(c) {
            Some(d) => (self.cut(c, d), d),
            None => {
                if self.at(c) != 91 {
                    return None;
                }
                let d = self.run(c + 1, is_dtext);
                if self.at(d) != 93 {
                    return None;
                }
                (self.cut(c + 1, d), d + 1)
            }
        };
        if self.at(q) != 62 {
            return None;
        }
        Some((self.cfws(q + 1), (self.cut(a, b), right)))
    }
    fn msg_ids(&self, i: usize) -> Option<(usize, Vec<Id>)> {
        let (mut p, x) = self.msg_id(i)?;
        let mut v = vec![x];
        while let Some((q, x)) = self.msg_id(p) {
            v.push(x);
            p = q;
        }
        Some((p, v))
    }
    fn keywords(&self, i: usize) -> Option<(usize, Vec<Vec<S>>)> {
        let (mut p, x) = self.phrase(i)?;
        let mut v = vec![x];
        while self.at(p) == 44 {
            match self.phrase(p + 1) {
                Some((q, x)) => {
                    v.push(x);
                    p = q;
                }
                None => break,
            }
        }
        Some((p, v))
    }

    // ---- trace
    fn received(&self, i: usize) -> Option<(usize, (Vec<Tok>, Dt))> {
        let mut p = i;
        let mut v = Vec::new();
        loop {
            if let Some((q, a)) = self.addr_spec(p) {
                v.push(Tok::Addr(a));
                p = q;
                continue;
            }
            if let Some((q, w)) = self.word(p) {
                if let Some((q2, d)) = self.dot_atom(p) {
                    if d.b.len() > w.b.len() {
                        v.push(Tok::Domain(d));
                        p = q2;
                        continue;
                    }
                }
                v.push(Tok::Word(w));
                p = q;
                continue;
            }
            if let Some((q, a)) = self.angle(p) {
                v.push(Tok::Addr(a));
                p = q;
                continue;
            }
            if let Some((q, d)) = self.domain(p) {
                v.push(Tok::Domain(d));
                p = q;
                continue;
            }
            break;
        }
        if self.at(p) != 59 {
            return None;
        }
        let (p, d) = self.date_time(p + 1)?;
        Some((p, (v, d)))
    }
    fn path(&self, i: usize) -> Option<(usize, Option<Ad>)> {
        if let Some((p, a)) = self.angle(i) {
            return Some((p, Some(a)));
        }
        let p = self.cfws(i);
        if self.at(p) != 60 {
            return None;
        }
        let p = self.cfws(p + 1);
        if self.at(p) != 62 {
            return None;
        }
        Some((self.cfws(p + 1), None))
    }

    // ---- MIME
    fn tok(&self, i: usize) -> Option<(usize, S)> {
        let e = self.run(i, is_ttext);
        if e == i {
            None
        } else {
            Some((e, self.cut(i, e)))
        }
    }
    fn value(&self, i: usize) -> Option<(usize, S)> {
        self.tok(i).or_else(|| self.quoted(i))
    }
    /// position after `; name` with optional comments
    fn param_start(&self, i: usize) -> Option<usize> {
        let p = self.cfws(i);
        if self.at(p) != 59 {
            return None;
        }
        Some(self.cfws(p + 1))
    }
    fn param(&self, i: usize) -> Option<(usize, Piece)> {
        let a = self.param_start(i)?;
        let e = self.run(a, is_ttext);
        if e == a || self.at(e) != 61 {
            return None;
        }
        // name [*digits] [*]
        let mut n = a;
        while n < e && self.s[n] != 42 {
            n += 1;
        }
        let mut name = self.cut(a, e);
        let mut index = None;
        let mut enc = false;
        if n > a && n < e {
            let mut k = n + 1;
            let mut idx: Option<usize> = Some(0);
            while k < e && is_digit(self.s[k] as i32) {
                idx = match idx {
                    Some(v) if v * 10 + (self.s[k] - 48) as usize <= 255 => Some(v * 10 + (self.s[k] - 48) as usize),
                    _ => None,
                };
                k += 1;
            }
            if k == n + 1 {
                // no index: only `name*`
                if k == e {
                    name = self.cut(a, n);
                    enc = true;
                }
            } else if k == e && idx.is_some() {
                name = self.cut(a, n);
                index = idx;
            } else if k + 1 == e && self.s[k] == 42 && idx.is_some() {
                name = self.cut(a, n);
                index = idx;
                enc = true;
            }
        }
        let (p, v) = self.value(e + 1)?;
        Some((p, Piece { name: lowered(name), index, enc, v }))
    }
    fn ct(&self, i: usize) -> Option<(usize, Ct)> {
        let (p, t) = self.tok(self.cfws(i))?;
        if self.at(p) != 47 {
            return None;
        }
        let (mut p, sub) = self.tok(p + 1)?;
        let name = lowered(t);
        let ty = which(&name, &TYPES);
        let mut pieces = Vec::new();
        while let Some((q, x)) = self.param(p) {
            pieces.push(x);
            p = q;
        }
        let params = assemble(pieces)?;
        Some((self.cfws(p), Ct { ty, name, sub: lowered(sub), params }))
    }
    fn is_name(&self, i: usize, name: &[u8]) -> bool {
        let mut k = 0;
        while k < name.len() {
            let c = self.at(i + k);
            if c < 0 || lower(c as u8) != name[k] {
                return false;
            }
            k += 1;
        }
        true
    }
    fn date_param(&self, i: usize, name: &[u8]) -> Option<(usize, Dt)> {
        let p = self.param_start(i)?;
        if !self.is_name(p, name) {
            return None;
        }
        let p = p + name.len();
        if self.at(p) != 61 || self.at(p + 1) != 34 {
            return None;
        }
        let (p, d) = self.date_time(p + 2)?;
        if self.at(p) != 34 {
            return None;
        }
        Some((p + 1, d))
    }
    fn disposition(&self, i: usize) -> Option<(usize, Disp)> {
        let (mut p, t) = self.tok(self.cfws(i))?;
        let name = lowered(t);
        let ty = if name.is(b"inline") {
            0
        } else if name.is(b"attachment") {
            1
        } else {
            2
        };
        let mut d = Disp { ty, name, filename: None, creation: None, modification: None, read: None, params: Vec::new() };
        let mut pieces = Vec::new();
        loop {
            if let Some((q, x)) = self.date_param(p, b"creation-date") {
                d.creation = Some(x);
                p = q;
            } else if let Some((q, x)) = self.date_param(p, b"modification-date") {
                d.modification = Some(x);
                p = q;
            } else if let Some((q, x)) = self.date_param(p, b"read-date") {
                d.read = Some(x);
                p = q;
            } else if let Some((q, x)) = self.param(p) {
                if x.name.is(b"filename") && x.index.is_none() && !x.enc {
                    d.filename = Some(x.v);
                } else {
                    pieces.push(x);
                }
                p = q;
            } else {
                break;
            }
        }
        d.params = assemble(pieces)?;
        Some((self.cfws(p), d))
    }
    fn cte(&self, i: usize) -> Option<(usize, Cte)> {
        let (p, t) = self.tok(self.cfws(i))?;
        let t = lowered(t);
        let e = if t.is(b"7bit") || t.is(b"8bit") || t.is(b"binary") {
            Cte::Identity
        } else if t.is(b"base64") {
            Cte::B64
        } else if t.is(b"quoted-printable") {
            Cte::Qp
        } else {
            Cte::Other
        };
        Some((self.cfws(p), e))
    }
    fn small(&self, i: usize) -> Option<(usize, u8)> {
        let e = self.run(i, is_digit);
        if e == i {
            return None;
        }
        let mut v = 0u32;
        let mut k = i;
        while k < e {
            v = v * 10 + (self.s[k] - 48) as u32;
            if v > 255 {
                return None;
            }
            k += 1;
        }
        Some((e, v as u8))
    }

    // ---- headers
    fn end<T>(&self, x: Option<(usize, T)>) -> Option<(usize, T)> {
        let (p, v) = x?;
        if self.crlf(p) {
            Some((p + 2, v))
        } else {
            None
        }
    }
    pub fn unknown(&self, i: usize) -> Option<(usize, (S, S))> {
        let mut e = i;
        while is_vchar(self.at(e)) && self.at(e) != 58 {
            e += 1;
        }
        if e == i || self.at(e) != 58 {
            return None;
        }
        let (p, v) = self.text(e + 1, self.full);
        self.end(Some((p, (self.cut(i, e), v))))
    }
    fn resent(&self, i: usize) -> Option<(usize, Resent)> {
        if !self.is_name(i, b"resent-") {
            return None;
        }
        let i = i + 7;
        let n = |name: &[u8]| -> Option<usize> {
            if self.is_name(i, name) {
                Some(i + name.len())
            } else {
                None
            }
        };
        if let Some(p) = n(b"date:") {
            return self.end(self.date_time(p)).map(|(p, v)| (p, Resent::Date(v)));
        }
        if let Some(p) = n(b"from:") {
            return self.end(self.mailboxes(p)).map(|(p, v)| (p, Resent::From(v)));
        }
        if let Some(p) = n(b"sender:") {
            return self.end(self.mailbox(p)).map(|(p, v)| (p, Resent::Sender(v)));
        }
        if let Some(p) = n(b"to:") {
            return self.end(self.addresses(p)).map(|(p, v)| (p, Resent::To(v)));
        }
        if let Some(p) = n(b"cc:") {
            return self.end(self.addresses(p)).map(|(p, v)| (p, Resent::Cc(v)));
        }
        if let Some(p) = n(b"bcc:") {
            return self.end(self.bcc(p)).map(|(p, v)| (p, Resent::Bcc(v)));
        }
        if let Some(p) = n(b"message-id:") {
            return self.end(self.msg_id(p)).map(|(p, v)| (p, Resent::Id(v)));
        }
        None
    }
    fn trace(&self, i: usize) -> Option<(usize, Trace)> {
        let mut p = i;
        let mut path = None;
        if self.is_name(p, b"return-path:") {
            let (q, a) = self.end(self.path(p + 12))?;
            path = Some(a);
            p = q;
        }
        let mut received = Vec::new();
        while self.is_name(p, b"received:") {
            match self.end(self.received(p + 9)) {
                Some((q, r)) => {
                    received.push(r);
                    p = q;
                }
                None => break,
            }
        }
        if received.is_empty() {
            return None;
        }
        let mut resent = Vec::new();
        while let Some((q, r)) = self.resent(p) {
            resent.push(r);
            p = q;
        }
        Some((p, Trace { path, received, resent }))
    }
    fn known(&self, i: usize) -> Option<(usize, F)> {
        let n = |name: &[u8]| -> Option<usize> {
            if self.is_name(i, name) {
                Some(i + name.len())
            } else {
                None
            }
        };
        if let Some(p) = n(b"date:") {
            return self.end(self.date_time(p)).map(|(p, v)| (p, F::Date(v)));
        }
        if let Some(p) = n(b"from:") {
            return self.end(self.mailboxes(p)).map(|(p, v)| (p, F::From(v)));
        }
        if let Some(p) = n(b"sender:") {
            return self.end(self.mailbox(p)).map(|(p, v)| (p, F::Sender(v)));
        }
        if let Some(p) = n(b"reply-to:") {
            return self.end(self.addresses(p)).map(|(p, v)| (p, F::ReplyTo(v)));
        }
        if let Some(p) = n(b"to:") {
            return self.end(self.addresses(p)).map(|(p, v)| (p, F::To(v)));
        }
        if let Some(p) = n(b"cc:") {
            return self.end(self.addresses(p)).map(|(p, v)| (p, F::Cc(v)));
        }
        if let Some(p) = n(b"bcc:") {
            return self.end(self.bcc(p)).map(|(p, v)| (p, F::Bcc(v)));
        }
        if let Some(p) = n(b"message-id:") {
            return self.end(self.msg_id(p)).map(|(p, v)| (p, F::MessageId(v)));
        }
        if let Some(p) = n(b"in-reply-to:") {
            return self.end(self.msg_ids(p)).map(|(p, v)| (p, F::InReplyTo(v)));
        }
        if let Some(p) = n(b"references:") {
            return self.end(self.msg_ids(p)).map(|(p, v)| (p, F::References(v)));
        }
        if let Some(p) = n(b"subject:") {
            return self.end(Some(self.text(p, self.full))).map(|(p, v)| (p, F::Subject(v)));
        }
        if let Some(p) = n(b"comments:") {
            return self.end(Some(self.text(p, self.full))).map(|(p, v)| (p, F::Comments(v)));
        }
        if let Some(p) = n(b"keywords:") {
            return self.end(self.keywords(p)).map(|(p, v)| (p, F::Keywords(v)));
        }
        if self.full {
            if let Some(p) = n(b"mime-version:") {
                let (p, a) = self.small(self.cfws(p))?;
                if self.at(p) != 46 {
                    return None;
                }
                let (p, b) = self.small(p + 1)?;
                return self.end(Some((self.cfws(p), F::Mime(a, b))));
            }
            return self.content(i);
        }
        None
    }
    fn content(&self, i: usize) -> Option<(usize, F)> {
        if !self.is_name(i, b"content-") {
            return None;
        }
        let i = i + 8;
        let n = |name: &[u8]| -> Option<usize> {
            if self.is_name(i, name) {
                Some(i + name.len())
            } else {
                None
            }
        };
        if let Some(p) = n(b"type:") {
            return self.end(self.ct(p)).map(|(p, v)| (p, F::ContentType(v)));
        }
        if let Some(p) = n(b"transfer-encoding:") {
            return self.end(self.cte(p)).map(|(p, v)| (p, F::Encoding(v)));
        }
        if let Some(p) = n(b"id:") {
            return self.end(self.msg_id(p)).map(|(p, v)| (p, F::ContentId(v)));
        }
        if let Some(p) = n(b"description:") {
            return self.end(Some(self.text(p, true))).map(|(p, v)| (p, F::Description(v)));
        }
        if let Some(p) = n(b"disposition:") {
            return self.end(self.disposition(p)).map(|(p, v)| (p, F::Disposition(v)));
        }
        None
    }
    /// All header fields from position i; returns where the header section ends.
    pub fn fields(&self, i: usize) -> (usize, Vec<F>) {
        let mut p = i;
        let mut v = Vec::new();
        while let Some((q, t)) = self.trace(p) {
            v.push(F::Trace(t));
            p = q;
        }
        loop {
            if let Some((q, f)) = self.known(p) {
                v.push(f);
                p = q;
            } else if let Some((q, (a, b))) = self.unknown(p) {
                v.push(F::Unknown(a, b));
                p = q;
            } else {
                return (p, v);
            }
        }
    }
    /// The headers of a body part: MIME headers and everything else.
    fn part(&self) -> Option<Raw> {
        let mut r = Raw { ct: default_ct(), disp: None, desc: None, id: None, value: Vec::new(), at: None, extra: Vec::new() };
        let mut enc = Cte::Identity;
        let mut p = 0;
        loop {
            if let Some((q, f)) = self.content(p) {
                match f {
                    F::ContentType(c) => r.ct = c,
                    F::Encoding(e) => enc = e,
                    F::ContentId(x) => r.id = Some(x),
                    F::Description(x) => r.desc = Some(x),
                    F::Disposition(x) => r.disp = Some(x),
                    _ => {}
                }
                p = q;
            } else if let Some((q, x)) = self.unknown(p) {
                r.extra.push(x);
                p = q;
            } else {
                break;
            }
        }
        if p < self.s.len() {
            if !self.crlf(p) {
                return None;
            }
            p += 2;
        }
        r.value = transfer(&self.s[p..], enc)?;
        if enc == Cte::Identity {
            r.at = Some(p);
        }
        Some(r)
    }
}

pub fn which(name: &S, list: &[&[u8]]) -> u8 {
    let mut k = 0;
    while k < list.len() {
        if name.is(list[k]) {
            return k as u8;
        }
        k += 1;
    }
    k as u8
}

pub struct Piece {
    pub name: S,
    pub index: Option<usize>,
    pub enc: bool,
    pub v: S,
}

fn hex(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}

/// %XX decoding (left to right, each escape once), then the charset; text of an unknown charset is kept.
fn extended(raw: &[u8], cs: &[u8]) -> Option<S> {
    if !charsets::known(cs) {
        return Some(S::lit(raw));
    }
    let mut o = Vec::new();
    let mut i = 0;
    while i < raw.len() {
        if raw[i] == b'%' && i + 2 < raw.len() {
            if let (Some(a), Some(b)) = (hex(raw[i + 1]), hex(raw[i + 2])) {
                o.push(a * 16 + b);
                i += 3;
                continue;
            }
        }
        o.push(raw[i]);
        i += 1;
    }
    match charsets::decode(cs, &o) {
        charsets::R::Text(t) => Some(S { b: t, from: 0, to: 0, copied: true }),
        _ => None,
    }
}

/// charset'language'text
fn split_ext(v: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut a = 0;
    while a < v.len() && v[a] != b'\'' {
        a += 1;
    }
    if a == v.len() {
        return None;
    }
    let mut b = a + 1;
    while b < v.len() && v[b] != b'\'' {
        b += 1;
    }
    if b == v.len() {
        return None;
    }
    let mut cs = Vec::new();
    for c in &v[..a] {
        cs.push(lower(*c));
    }
    Some((cs, b + 1))
}

fn put(out: &mut Vec<(S, S)>, name: S, v: S) {
    let mut k = 0;
    while k < out.len() {
        if out[k].0.is(&name.b) {
            out[k].1 = v;
            return;
        }
        k += 1;
    }
    out.push((name, v));
}

/// None when the parameter list is malformed (an undecodable encoded piece).
fn assemble(pieces: Vec<Piece>) -> Option<Vec<(S, S)>> {
    let mut out: Vec<(S, S)> = Vec::new();
    let mut k = 0;
    while k < pieces.len() {
        let x = &pieces[k];
        if x.index.is_none() {
            let v = if x.enc {
                match split_ext(&x.v.b) {
                    Some((cs, at)) => extended(&x.v.b[at..], &cs)?,
                    None => x.v.clone(),
                }
            } else {
                x.v.clone()
            };
            put(&mut out, x.name.clone(), v);
        }
        k += 1;
    }
    // continuations, one name at a time
    let mut k = 0;
    while k < pieces.len() {
        let x = &pieces[k];
        let mut first = x.index.is_some();
        let mut j = 0;
        while first && j < k {
            if pieces[j].index.is_some() && pieces[j].name.is(&x.name.b) {
                first = false;
            }
            j += 1;
        }
        if first {
            let find = |i: usize| -> Option<&Piece> {
                let mut r = None;
                for p in pieces.iter() {
                    if p.index == Some(i) && p.name.is(&x.name.b) {
                        r = Some(p);
                    }
                }
                r
            };
            if let Some(p0) = find(0) {
                let mut cs = None;
                let mut v;
                if p0.enc {
                    let (c, at) = split_ext(&p0.v.b)?;
                    v = extended(&p0.v.b[at..], &c)?;
                    cs = Some(c);
                } else {
                    v = p0.v.clone();
                }
                let mut i = 1;
                while let Some(p) = find(i) {
                    v.copied = true;
                    if p.enc && cs.is_some() {
                        let t = extended(&p.v.b, cs.as_ref().unwrap())?;
                        v.b.extend_from_slice(&t.b);
                    } else {
                        v.b.extend_from_slice(&p.v.b);
                    }
                    i += 1;
                }
                let mut name = p0.name.clone();
                name.copied = true;
                put(&mut out, name, v);
            }
        }
        k += 1;
    }
    Some(out)
}

// ---- transfer encodings
pub fn b64val(c: u8) -> Option<u8> {
    if c >= b'A' && c <= b'Z' {
        Some(c - b'A')
    } else if c >= b'a' && c <= b'z' {
        Some(c - b'a' + 26)
    } else if c >= b'0' && c <= b'9' {
        Some(c - b'0' + 52)
    } else if c == b'+' {
        Some(62)
    } else if c == b'/' {
        Some(63)
    } else {
        None
    }
}
/// Groups of four alphabet characters; `=` counts only as third or fourth of a group.
pub fn base64(d: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    let mut g = [0u8; 4];
    let mut n = 0; // characters of the group so far
    let mut pad = 0;
    for &c in d {
        match b64val(c) {
            Some(v) => {
                if pad > 0 {
                    return None;
                }
                g[n] = v;
                n += 1;
            }
            None => {
                if c == b'=' && n >= 2 {
                    g[n] = 0;
                    pad += 1;
                    n += 1;
                }
            }
        }
        if n == 4 {
            o.push((g[0] << 2) | (g[1] >> 4));
            if pad < 2 {
                o.push((g[1] << 4) | (g[2] >> 2));
            }
            if pad < 1 {
                o.push((g[2] << 6) | g[3]);
            }
            n = 0;
            pad = 0;
        }
    }
    if n == 0 {
        Some(o)
    } else {
        None
    }
}
fn bad(o: &mut Vec<u8>) {
    o.push(0xEF);
    o.push(0xBF);
    o.push(0xBD);
}
fn escape(d: &[u8], i: usize, o: &mut Vec<u8>) -> usize {
    if i + 2 >= d.len() {
        o.push(b'=');
        return i + 1;
    }
    if d[i + 1] == 13 && d[i + 2] == 10 {
        return i + 3;
    }
    match (hex(d[i + 1]), hex(d[i + 2])) {
        (Some(a), Some(b)) => o.push(a * 16 + b),
        _ => bad(o),
    }
    i + 3
}
pub fn qp(d: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < d.len() {
        let c = d[i];
        if c == b'=' {
            i = escape(d, i, &mut o);
        } else if c == 13 && i + 1 < d.len() && d[i + 1] == 10 {
            o.push(13);
            o.push(10);
            i += 2;
        } else {
            if is_vchar(c as i32) || is_wsp(c as i32) {
                o.push(c);
            } else {
                bad(&mut o);
            }
            i += 1;
        }
    }
    o
}
/// Q encoding of encoded words
fn q_text(d: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < d.len() {
        let c = d[i];
        if c == b'=' {
            i = escape(d, i, &mut o);
        } else {
            o.push(if c == b'_' { 32 } else { c });
            i += 1;
        }
    }
    o
}
pub fn transfer(d: &[u8], e: Cte) -> Option<Vec<u8>> {
    match e {
        Cte::Identity => Some(d.to_vec()),
        Cte::Qp => Some(qp(d)),
        Cte::B64 => base64(d),
        Cte::Other => None,
    }
}

// ---- messages
pub struct Raw {
    pub ct: Ct,
    pub disp: Option<Disp>,
    pub desc: Option<S>,
    pub id: Option<Id>,
    pub value: Vec<u8>,
    /// where the value lies in the input, when it is not decoded
    pub at: Option<usize>,
    pub extra: Vec<(S, S)>,
}
pub fn default_ct() -> Ct {
    Ct { ty: 0, name: S::lit(b"text"), sub: S::lit(b"plain"), params: vec![(S::lit(b"charset"), S::lit(b"us-ascii"))] }
}
pub enum Bad {
    Duplicate(&'static [u8]),
    Missing(&'static [u8]),
    Other,
}
pub struct Msg {
    pub date: Dt,
    pub from: Vec<Mb>,
    pub sender: Mb,
    pub reply_to: Option<Vec<Address>>,
    pub to: Option<Vec<Address>>,
    pub cc: Option<Vec<Address>>,
    pub bcc: Option<Vec<Address>>,
    pub message_id: Option<Id>,
    pub in_reply_to: Option<Vec<Id>>,
    pub references: Option<Vec<Id>>,
    pub subject: Option<S>,
    pub comments: Vec<S>,
    pub keywords: Vec<Vec<S>>,
    pub trace: Vec<Trace>,
    pub unknown: Vec<(S, S)>,
    /// all-features build: the top-level entity
    pub raw: Raw,
    /// default build: the body text
    pub body: Option<(usize, usize)>,
}

/// Body rules without MIME: text lines of at most 998 characters separated by CRLF.
pub fn plain_body_ok(b: &[u8]) -> bool {
    let mut n = 0;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == 13 {
            if i + 1 >= b.len() || b[i + 1] != 10 {
                return false;
            }
            n = 0;
            i += 2;
            continue;
        }
        if c == 0 || c == 10 || c > 127 {
            return false;
        }
        n += 1;
        if n > 998 {
            return false;
        }
        i += 1;
    }
    true
}

fn once<T>(slot: &mut Option<T>, v: T, name: &'static [u8]) -> Result<(), Bad> {
    if slot.is_some() {
        return Err(Bad::Duplicate(name));
    }
    *slot = Some(v);
    Ok(())
}

/// The header list and where the body starts (None: the message ends with its headers), or an error.
/// A message as seen without any header support: the list of headers and the body.
pub fn bare(s: &[u8]) -> Option<(Vec<(S, S)>, Option<usize>)> {
    let p = P { s, full: false, compat: false };
    let mut v = Vec::new();
    let mut i = 0;
    while let Some((q, x)) = p.unknown(i) {
        v.push(x);
        i = q;
    }
    if i == s.len() {
        return Some((v, None));
    }
    if !p.crlf(i) || !plain_body_ok(&s[i + 2..]) {
        return None;
    }
    Some((v, Some(i + 2)))
}

pub fn split(s: &[u8], full: bool) -> Result<(Vec<F>, Option<usize>), Bad> {
    let p = P { s, full, compat: full };
    let (e, f) = p.fields(0);
    if e == s.len() {
        return Ok((f, None));
    }
    if !p.crlf(e) {
        return Err(Bad::Other);
    }
    if !full && !plain_body_ok(&s[e + 2..]) {
        return Err(Bad::Other);
    }
    Ok((f, Some(e + 2)))
}

pub fn message(s: &[u8], fields: Vec<F>, start: Option<usize>, full: bool) -> Result<Msg, Bad> {
    let (mut date, mut from, mut sender, mut reply_to, mut to, mut cc, mut bcc) = (None, None, None, None, None, None, None);
    let (mut message_id, mut in_reply_to, mut references, mut subject) = (None, None, None, None);
    let (mut comments, mut keywords, mut trace, mut unknown) = (Vec::new(), Vec::new(), Vec::new(), Vec::new());
    let (mut ver, mut ct, mut enc, mut cid, mut desc, mut disp) = (None, None, None, None, None, None);
    for f in fields {
        match f {
            F::Date(x) => once(&mut date, x, b"Date")?,
            F::From(x) => once(&mut from, x, b"From")?,
            F::Sender(x) => once(&mut sender, x, b"Sender")?,
            F::ReplyTo(x) => once(&mut reply_to, x, b"Reply-To")?,
            F::To(x) => once(&mut to, x, b"To")?,
            F::Cc(x) => once(&mut cc, x, b"Cc")?,
            F::Bcc(x) => once(&mut bcc, x, b"Bcc")?,
            F::MessageId(x) => once(&mut message_id, x, b"Message-ID")?,
            F::InReplyTo(x) => once(&mut in_reply_to, x, b"In-Reply-To")?,
            F::References(x) => once(&mut references, x, b"References")?,
            F::Subject(x) => once(&mut subject, x, b"Subject")?,
            F::Mime(a, b) => once(&mut ver, (a, b), b"Mime-Version")?,
            F::ContentType(x) => once(&mut ct, x, b"Content-Type")?,
            F::Encoding(x) => once(&mut enc, x, b"Content-Transfer-Encoding")?,
            F::ContentId(x) => once(&mut cid, x, b"Content-Id")?,
            F::Description(x) => once(&mut desc, x, b"Content-Description")?,
            F::Disposition(x) => once(&mut disp, x, b"Content-Disposition")?,
            F::Comments(x) => comments.push(x),
            F::Keywords(x) => keywords.extend(x),
            F::Trace(x) => trace.push(x),
            F::Unknown(a, b) => unknown.push((a, b)),
        }
    }
    let from = match from {
        Some(x) => x,
        None => return Err(Bad::Missing(b"From")),
    };
    let date = match date {
        Some(x) => x,
        None => return Err(Bad::Missing(b"Date")),
    };
    let sender = match sender {
        Some(x) => x,
        None => {
            if from.len() != 1 {
                return Err(Bad::Missing(b"Sender"));
            }
            from[0].clone()
        }
    };
    let mut value = Vec::new();
    let mut at = None;
    if full {
        if let Some(b) = start {
            if enc.unwrap_or(Cte::Identity) == Cte::Identity {
                at = Some(b);
            }
            value = match transfer(&s[b..], enc.unwrap_or(Cte::Identity)) {
                Some(v) => v,
                None => return Err(Bad::Other),
            };
        }
    }
    Ok(Msg {
        date,
        from,
        sender,
        reply_to,
        to,
        cc,
        bcc,
        message_id,
        in_reply_to,
        references,
        subject,
        comments,
        keywords,
        trace,
        unknown,
        raw: Raw { ct: ct.unwrap_or_else(default_ct), disp, desc, id: cid, value, at, extra: Vec::new() },
        body: start.map(|b| (b, s.len())),
    })
}

// ---- entities
pub enum Ent {
    Multi(Vec<Raw>),
    Text(Vec<u8>),
    Unknown,
    Bad,
}
pub fn param<'x>(ps: &'x [(S, S)], name: &[u8]) -> Option<&'x S> {
    for (n, v) in ps {
        if n.is(name) {
            return Some(v);
        }
    }
    None
}
fn is_at(b: &[u8], i: usize, x: &[u8]) -> bool {
    i + x.len() <= b.len() && same(&b[i..i + x.len()], x)
}
/// Split at delimiter lines. None: no closing delimiter.
pub fn split_parts<'x>(b: &'x [u8], boundary: &[u8]) -> Option<Vec<&'x [u8]>> {
    let mut dash = vec![b'-', b'-'];
    dash.extend_from_slice(boundary);
    let mut parts = Vec::new();
    let mut opened = false;
    let mut start = 0; // first byte of the current part
    let mut line = 0; // first byte of the current line
    loop {
        if is_at(b, line, &dash) {
            let e = line + dash.len();
            let closing = is_at(b, e, b"--") && (e + 2 == b.len() || is_at(b, e + 2, b"\r\n"));
            if closing || is_at(b, e, b"\r\n") {
                if opened {
                    let end = if line >= start + 2 { line - 2 } else { start };
                    parts.push(&b[start..end]);
                }
                if closing {
                    return Some(parts);
                }
                opened = true;
                start = e + 2;
                line = start;
                continue;
            }
        }
        // next line
        let mut i = line;
        loop {
            if i + 1 >= b.len() {
                return None;
            }
            if b[i] == 13 && b[i + 1] == 10 {
                break;
            }
            i += 1;
        }
        line = i + 2;
    }
}
pub fn entity(r: &Raw) -> Ent {
    if r.ct.ty == 6 {
        let boundary = match param(&r.ct.params, b"boundary") {
            Some(x) => x,
            None => return Ent::Bad,
        };
        let parts = match split_parts(&r.value, &boundary.b) {
            Some(p) => p,
            None => return Ent::Bad,
        };
        let mut v = Vec::new();
        for p in parts {
            match (P { s: p, full: true, compat: true }).part() {
                Some(x) => v.push(x),
                None => return Ent::Bad,
            }
        }
        return Ent::Multi(v);
    }
    if r.ct.ty == 0 {
        if let Some(cs) = param(&r.ct.params, b"charset") {
            let cs = lowered(cs.clone());
            return match charsets::decode(&cs.b, &r.value) {
                charsets::R::Text(t) => Ent::Text(t),
                charsets::R::Unknown => Ent::Unknown,
                charsets::R::Invalid => Ent::Bad,
            };
        }
    }
    Ent::Unknown
}
