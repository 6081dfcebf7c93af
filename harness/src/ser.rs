//! Canonical serialisation of parse results: of the real types (both builds of the crate) and of the model's.
use crate::model::{self, *};
use std::borrow::Cow;

pub const STATUS: usize = 0;
pub const DATE: usize = 1;
pub const ADDR: usize = 2;
pub const SENDER: usize = 3;
pub const IDS: usize = 4;
pub const TEXT: usize = 5;
pub const KEYW: usize = 6;
pub const TRACE: usize = 7;
pub const UNKNOWN: usize = 8;
pub const KINDS: usize = 9;
pub const CT: usize = 10;
pub const DISP: usize = 11;
pub const DESC: usize = 12;
pub const CID: usize = 13;
pub const VALUE: usize = 14;
pub const BODY: usize = 15;
pub const N: usize = 16;

pub const RAW: u8 = 0; // never decoded
pub const MAY: u8 = 1; // may come out of MIME decoding

#[derive(Clone, Copy)]
pub struct Prov {
    pub kind: u8, // 0 in the input buffer, 1 owned, 2 borrowed from elsewhere
    pub from: usize,
    pub to: usize,
    pub cat: u8,
    pub off: usize,
    pub len: usize,
}
pub struct Out {
    pub b: Vec<u8>,
    pub prov: Vec<Prov>,
}
pub struct Sec {
    pub s: Vec<Out>,
    pub base: usize,
    pub len: usize,
}
pub fn sections(d: &[u8]) -> Sec {
    let mut s = Vec::new();
    let mut i = 0;
    while i < N {
        s.push(Out { b: Vec::new(), prov: Vec::new() });
        i += 1;
    }
    Sec { s, base: d.as_ptr() as usize, len: d.len() }
}
/// Where a writer is: section and buffer geometry
pub struct W<'a> {
    pub o: &'a mut Out,
    pub base: usize,
    pub len: usize,
}
impl Sec {
    pub fn w(&mut self, i: usize) -> W<'_> {
        W { o: &mut self.s[i], base: self.base, len: self.len }
    }
}
impl<'a> W<'a> {
    pub fn u8(&mut self, x: u8) {
        self.o.b.push(x);
    }
    pub fn bool(&mut self, x: bool) {
        self.o.b.push(x as u8);
    }
    pub fn num(&mut self, x: usize) {
        let mut k = 0;
        while k < 8 {
            self.o.b.push((x >> (8 * k)) as u8);
            k += 1;
        }
    }
    pub fn n(&mut self, x: usize) {
        self.o.b.push(x as u8);
        self.o.b.push((x >> 8) as u8);
        self.o.b.push((x >> 16) as u8);
    }
    pub fn bytes(&mut self, x: &[u8]) {
        self.n(x.len());
        self.o.b.extend_from_slice(x);
    }
    pub fn str(&mut self, x: &str, owned: bool, cat: u8) {
        self.raw(x.as_bytes(), owned, cat)
    }
    pub fn raw(&mut self, x: &[u8], owned: bool, cat: u8) {
        let p = x.as_ptr() as usize;
        let inside = !owned && p >= self.base && p + x.len() <= self.base + self.len;
        self.n(x.len());
        let off = self.o.b.len();
        self.o.b.extend_from_slice(x);
        let (from, to) = if inside { (p - self.base, p - self.base + x.len()) } else { (0, 0) };
        self.o.prov.push(Prov { kind: if owned { 1 } else if inside { 0 } else { 2 }, from, to, cat, off, len: x.len() });
    }
    pub fn cow(&mut self, x: &Cow<str>, cat: u8) {
        match x {
            Cow::Borrowed(s) => self.str(s, false, cat),
            Cow::Owned(s) => self.str(s, true, cat),
        }
    }
    pub fn cowb(&mut self, x: &Cow<[u8]>) {
        match x {
            Cow::Borrowed(s) => self.raw(s, false, MAY),
            Cow::Owned(s) => self.raw(s, true, MAY),
        }
    }
    pub fn s(&mut self, x: &S) {
        self.n(x.b.len());
        let off = self.o.b.len();
        self.o.b.extend_from_slice(&x.b);
        self.o.prov.push(Prov { kind: x.copied as u8, from: x.from, to: x.to, cat: 0, off, len: x.b.len() });
    }
}

macro_rules! real {
    ($m:ident, $k:ident) => {
        pub mod $m {
            use super::*;
            use $k::address::{Address, EmailAddress, Mailbox};
            pub use $k::prelude::*;
            use $k::time::*;
            use $k::verif::{ReceivedToken, TraceField};

            pub fn dt(o: &mut W, d: &DateTime) {
                o.u8(match &d.day_name {
                    None => 0,
                    Some(Day::Monday) => 1,
                    Some(Day::Tuesday) => 2,
                    Some(Day::Wednesday) => 3,
                    Some(Day::Thursday) => 4,
                    Some(Day::Friday) => 5,
                    Some(Day::Saturday) => 6,
                    Some(Day::Sunday) => 7,
                });
                o.u8(d.date.day);
                o.u8(match &d.date.month {
                    Month::January => 1,
                    Month::February => 2,
                    Month::March => 3,
                    Month::April => 4,
                    Month::May => 5,
                    Month::June => 6,
                    Month::July => 7,
                    Month::August => 8,
                    Month::September => 9,
                    Month::October => 10,
                    Month::November => 11,
                    Month::December => 12,
                });
                o.num(d.date.year);
                o.u8(d.time.time.hour);
                o.u8(d.time.time.minute);
                o.u8(d.time.time.second);
                o.bool(d.time.zone.sign);
                o.u8(d.time.zone.hour_offset);
                o.u8(d.time.zone.minute_offset);
            }
            pub fn ad(o: &mut W, a: &EmailAddress) {
                o.cow(&a.local_part, RAW);
                o.cow(&a.domain, RAW);
            }
            pub fn words(o: &mut W, v: &[Cow<str>]) {
                o.n(v.len());
                for x in v {
                    o.cow(x, MAY);
                }
            }
            pub fn mb(o: &mut W, m: &Mailbox) {
                match &m.name {
                    None => o.u8(0),
                    Some(v) => {
                        o.u8(1);
                        words(o, v);
                    }
                }
                ad(o, &m.address);
            }
            pub fn mbs(o: &mut W, v: &[Mailbox]) {
                o.n(v.len());
                for x in v {
                    mb(o, x);
                }
            }
            pub fn addrs(o: &mut W, v: &[Address]) {
                o.n(v.len());
                for x in v {
                    match x {
                        Address::Mailbox(m) => {
                            o.u8(0);
                            mb(o, m);
                        }
                        Address::Group((n, l)) => {
                            o.u8(1);
                            words(o, n);
                            mbs(o, l);
                        }
                    }
                }
            }
            pub fn oaddrs(o: &mut W, v: &Option<Vec<Address>>) {
                match v {
                    None => o.u8(0),
                    Some(v) => {
                        o.u8(1);
                        addrs(o, v);
                    }
                }
            }
            pub fn id(o: &mut W, x: &(Cow<str>, Cow<str>)) {
                o.cow(&x.0, RAW);
                o.cow(&x.1, RAW);
            }
            pub fn ids(o: &mut W, v: &Option<Vec<(Cow<str>, Cow<str>)>>) {
                match v {
                    None => o.u8(0),
                    Some(v) => {
                        o.u8(1);
                        o.n(v.len());
                        for x in v {
                            id(o, x);
                        }
                    }
                }
            }
            pub fn ostr(o: &mut W, x: &Option<Cow<str>>) {
                match x {
                    None => o.u8(0),
                    Some(x) => {
                        o.u8(1);
                        o.cow(x, MAY);
                    }
                }
            }
            pub fn trace(
                o: &mut W,
                path: &Option<Option<EmailAddress>>,
                received: &[(Vec<ReceivedToken>, DateTime)],
                resent: &[TraceField],
            ) {
                match path {
                    None => o.u8(0),
                    Some(None) => o.u8(1),
                    Some(Some(a)) => {
                        o.u8(2);
                        ad(o, a);
                    }
                }
                o.n(received.len());
                for (t, d) in received {
                    o.n(t.len());
                    for x in t {
                        match x {
                            ReceivedToken::Word(w) => {
                                o.u8(0);
                                o.cow(w, RAW);
                            }
                            ReceivedToken::Addr(a) => {
                                o.u8(1);
                                ad(o, a);
                            }
                            ReceivedToken::Domain(w) => {
                                o.u8(2);
                                o.cow(w, RAW);
                            }
                        }
                    }
                    dt(o, d);
                }
                o.n(resent.len());
                for x in resent {
                    match x {
                        TraceField::Date(d) => {
                            o.u8(0);
                            dt(o, d);
                        }
                        TraceField::From(v) => {
                            o.u8(1);
                            mbs(o, v);
                        }
                        TraceField::Sender(m) => {
                            o.u8(2);
                            mb(o, m);
                        }
                        TraceField::To(v) => {
                            o.u8(3);
                            addrs(o, v);
                        }
                        TraceField::Cc(v) => {
                            o.u8(4);
                            addrs(o, v);
                        }
                        TraceField::Bcc(v) => {
                            o.u8(5);
                            addrs(o, v);
                        }
                        TraceField::MessageId(x) => {
                            o.u8(6);
                            id(o, x);
                        }
                    }
                }
            }
            pub fn error(o: &mut W, e: &$k::error::Error) {
                match e {
                    $k::error::Error::DuplicateHeader(n) => {
                        o.u8(1);
                        o.bytes(n.as_bytes());
                    }
                    $k::error::Error::MissingHeader(n) => {
                        o.u8(2);
                        o.bytes(n.as_bytes());
                    }
                    _ => o.u8(3),
                }
            }
            /// The parts of a message both builds report.
            pub fn email(z: &mut Sec, m: &Email) {
                z.w(STATUS).u8(0);
                dt(&mut z.w(DATE), &m.date);
                mbs(&mut z.w(ADDR), &m.from);
                oaddrs(&mut z.w(ADDR), &m.reply_to);
                oaddrs(&mut z.w(ADDR), &m.to);
                oaddrs(&mut z.w(ADDR), &m.cc);
                oaddrs(&mut z.w(ADDR), &m.bcc);
                mb(&mut z.w(SENDER), &m.sender);
                {
                    let o = &mut z.w(IDS);
                    match &m.message_id {
                        None => o.u8(0),
                        Some(x) => {
                            o.u8(1);
                            id(o, x);
                        }
                    }
                    ids(o, &m.in_reply_to);
                    ids(o, &m.references);
                }
                {
                    let o = &mut z.w(TEXT);
                    ostr(o, &m.subject);
                    o.n(m.comments.len());
                    for x in &m.comments {
                        o.cow(x, MAY);
                    }
                }
                {
                    let o = &mut z.w(KEYW);
                    o.n(m.keywords.len());
                    for x in &m.keywords {
                        words(o, x);
                    }
                }
                {
                    let o = &mut z.w(TRACE);
                    o.n(m.trace.len());
                    for (a, b, c) in &m.trace {
                        trace(o, a, b, c);
                    }
                }
                let o = &mut z.w(UNKNOWN);
                o.n(m.unknown_fields.len());
                for (n, v) in &m.unknown_fields {
                    o.str(n, false, RAW);
                    o.cow(v, MAY);
                }
            }
        }
    };
}
real!(a, epa);
real!(d, epd);
real!(mm, epm);

/// An entity without its disposition and remaining headers, and what it parses to; `like` only gives the order of parameters.
macro_rules! light {
    ($f:ident, $k:ident) => {
        pub fn $f(w: &mut W, r: &$k::mime::RawEntity, like: Option<&Raw>, depth: usize) {
            use $k::mime::*;
            match &r.mime_type {
                ContentType::Text => w.u8(0),
                ContentType::Image => w.u8(1),
                ContentType::Audio => w.u8(2),
                ContentType::Video => w.u8(3),
                ContentType::Application => w.u8(4),
                ContentType::Message => w.u8(5),
                ContentType::Multipart => w.u8(6),
                ContentType::Unknown(n) => {
                    w.u8(7);
                    w.cow(n, RAW);
                }
            }
            w.cow(&r.subtype, RAW);
            w.n(r.parameters.len());
            let none: Vec<(S, S)> = Vec::new();
            for (n, _) in like.map(|r| &r.ct.params).unwrap_or(&none) {
                match r.parameters.get_key_value(unsafe { std::str::from_utf8_unchecked(&n.b) }) {
                    Some((k, v)) => {
                        w.cow(k, RAW);
                        w.cow(v, MAY);
                    }
                    None => w.u8(255),
                }
            }
            for x in [&r.description, &r.id.as_ref().map(|x| x.0.clone()), &r.id.as_ref().map(|x| x.1.clone())] {
                match x {
                    None => w.u8(0),
                    Some(x) => {
                        w.u8(1);
                        w.cow(x, MAY);
                    }
                }
            }
            w.cowb(&r.value);
            match r.parse() {
                Err(_) => w.u8(9),
                Ok(Entity::Unknown) => w.u8(8),
                Ok(Entity::Text { subtype, value }) => {
                    w.u8(1);
                    w.cow(subtype, RAW);
                    w.cow(&value, MAY);
                }
                Ok(Entity::Multipart { subtype, content }) => {
                    w.u8(2);
                    w.cow(subtype, RAW);
                    w.n(content.len());
                    if depth > 0 {
                        let v = match like.map(model::entity) {
                            Some(Ent::Multi(v)) => v,
                            _ => Vec::new(),
                        };
                        let mut i = 0;
                        while i < content.len() {
                            $f(w, &content[i], v.get(i), depth - 1);
                            i += 1;
                        }
                    }
                }
            }
        }
    };
}
light!(light_a, epa);
light!(light_m, epm);

pub mod full {
    use super::*;
    use epa::mime::*;
    use epa::prelude::{Email, Field};
    use std::collections::HashMap;

    pub fn params(o: &mut W, p: &HashMap<Cow<str>, Cow<str>>, like: &[(S, S)]) {
        // in the model's order, then whatever the model does not have, by name
        o.n(p.len());
        let mut found = 0;
        for (n, _) in like {
            let key = unsafe { std::str::from_utf8_unchecked(&n.b) };
            match p.get_key_value(key) {
                Some((k, v)) => {
                    o.cow(k, RAW);
                    o.cow(v, MAY);
                    found += 1;
                }
                None => o.u8(255),
            }
        }
        if found < p.len() {
            let mut rest: Vec<(&Cow<str>, &Cow<str>)> = Vec::new();
            for (k, v) in p.iter() {
                if !like.iter().any(|(n, _)| super::same(&n.b, k.as_bytes())) {
                    let mut i = rest.len();
                    while i > 0 && rest[i - 1].0.as_bytes() > k.as_bytes() {
                        i -= 1;
                    }
                    rest.insert(i, (k, v));
                }
            }
            for (k, v) in rest {
                o.cow(k, RAW);
                o.cow(v, MAY);
            }
        }
    }
    pub fn odt(o: &mut W, d: &Option<epa::time::DateTime>) {
        match d {
            None => o.u8(0),
            Some(d) => {
                o.u8(1);
                super::a::dt(o, d);
            }
        }
    }
    pub fn ct(o: &mut W, ty: &ContentType, sub: &Cow<str>, p: &HashMap<Cow<str>, Cow<str>>, like: &[(S, S)]) {
        match ty {
            ContentType::Text => o.u8(0),
            ContentType::Image => o.u8(1),
            ContentType::Audio => o.u8(2),
            ContentType::Video => o.u8(3),
            ContentType::Application => o.u8(4),
            ContentType::Message => o.u8(5),
            ContentType::Multipart => o.u8(6),
            ContentType::Unknown(n) => {
                o.u8(7);
                o.cow(n, RAW);
            }
        }
        o.cow(sub, RAW);
        params(o, p, like);
    }
    pub fn disp(o: &mut W, d: &Option<Disposition>, like: &[(S, S)]) {
        let d = match d {
            None => {
                o.u8(0);
                return;
            }
            Some(d) => d,
        };
        o.u8(1);
        match &d.disposition_type {
            DispositionType::Inline => o.u8(0),
            DispositionType::Attachment => o.u8(1),
            DispositionType::Unknown(n) => {
                o.u8(2);
                o.cow(n, RAW);
            }
        }
        super::a::ostr(o, &d.filename);
        odt(o, &d.creation_date);
        odt(o, &d.modification_date);
        odt(o, &d.read_date);
        params(o, &d.unstructured, like);
    }
    /// Entity-level sections. `like` is the model's entity (only for the order of parameters).
    pub fn raw(z: &mut Sec, r: &RawEntity, like: Option<&Raw>) {
        let none: Vec<(S, S)> = Vec::new();
        let lp = like.map(|r| &r.ct.params).unwrap_or(&none);
        let ld = like.and_then(|r| r.disp.as_ref()).map(|d| &d.params).unwrap_or(&none);
        ct(&mut z.w(CT), &r.mime_type, &r.subtype, &r.parameters, lp);
        disp(&mut z.w(DISP), &r.disposition, ld);
        super::a::ostr(&mut z.w(DESC), &r.description);
        let o = &mut z.w(CID);
        match &r.id {
            None => o.u8(0),
            Some(x) => {
                o.u8(1);
                super::a::id(o, x);
            }
        }
        z.w(VALUE).cowb(&r.value);
        let o = &mut z.w(UNKNOWN);
        o.n(r.additional_headers.len());
        for (n, v) in &r.additional_headers {
            o.cow(n, RAW);
            o.cow(v, MAY);
        }
    }
    pub fn email(z: &mut Sec, m: &Email, like: Option<&Raw>) {
        super::a::email(z, m);
        raw(z, &m.mime_entity, like);
    }
    pub fn kinds(o: &mut W, f: &[Field]) {
        o.n(f.len());
        for x in f {
            let k = match x {
                Field::Date(_) => 1,
                Field::From(_) => 2,
                Field::Sender(_) => 3,
                Field::ReplyTo(_) => 4,
                Field::To(_) => 5,
                Field::Cc(_) => 6,
                Field::Bcc(_) => 7,
                Field::MessageId(_) => 8,
                Field::InReplyTo(_) => 9,
                Field::References(_) => 10,
                Field::Subject(_) => 11,
                Field::Comments(_) => 12,
                Field::Keywords(_) => 13,
                Field::MimeVersion(a, b) => {
                    o.u8(*a);
                    o.u8(*b);
                    14
                }
                Field::ContentType { .. } => 15,
                Field::ContentTransferEncoding(_) => 16,
                Field::ContentId(_) => 17,
                Field::ContentDescription(_) => 18,
                Field::ContentDisposition(_) => 19,
                Field::Trace { .. } => 20,
                Field::Unknown { name, value } => {
                    o.str(name, false, RAW);
                    o.cow(value, MAY);
                    21
                }
            };
            o.u8(k);
        }
    }
}
pub mod dflt {
    use super::*;
    use epd::prelude::{Email, Field};
    pub fn email(z: &mut Sec, m: &Email) {
        super::d::email(z, m);
        let o = &mut z.w(BODY);
        match &m.body {
            None => o.u8(0),
            Some(b) => {
                o.u8(1);
                o.cow(b, MAY);
            }
        }
    }
    pub fn kinds(o: &mut W, f: &[Field]) {
        o.n(f.len());
        for x in f {
            let k = match x {
                Field::Date(_) => 1,
                Field::From(_) => 2,
                Field::Sender(_) => 3,
                Field::ReplyTo(_) => 4,
                Field::To(_) => 5,
                Field::Cc(_) => 6,
                Field::Bcc(_) => 7,
                Field::MessageId(_) => 8,
                Field::InReplyTo(_) => 9,
                Field::References(_) => 10,
                Field::Subject(_) => 11,
                Field::Comments(_) => 12,
                Field::Keywords(_) => 13,
                Field::Trace { .. } => 20,
                Field::Unknown { name, value } => {
                    o.str(name, false, RAW);
                    o.cow(value, MAY);
                    21
                }
            };
            o.u8(k);
        }
    }
}

/// The model's results in the same format.
pub mod m {
    use super::*;
    pub fn dt(o: &mut W, d: &Dt) {
        o.u8(d.day_name);
        o.u8(d.day);
        o.u8(d.month);
        o.num(d.year);
        o.u8(d.h);
        o.u8(d.m);
        o.u8(d.s);
        o.bool(d.plus);
        o.u8(d.zh);
        o.u8(d.zm);
    }
    pub fn ad(o: &mut W, a: &Ad) {
        o.s(&a.local);
        o.s(&a.domain);
    }
    pub fn words(o: &mut W, v: &[S]) {
        o.n(v.len());
        for x in v {
            o.s(x);
        }
    }
    pub fn mb(o: &mut W, m: &Mb) {
        match &m.name {
            None => o.u8(0),
            Some(v) => {
                o.u8(1);
                words(o, v);
            }
        }
        ad(o, &m.ad);
    }
    pub fn mbs(o: &mut W, v: &[Mb]) {
        o.n(v.len());
        for x in v {
            mb(o, x);
        }
    }
    pub fn addrs(o: &mut W, v: &[model::Address]) {
        o.n(v.len());
        for x in v {
            match x {
                model::Address::M(m) => {
                    o.u8(0);
                    mb(o, m);
                }
                model::Address::G(n, l) => {
                    o.u8(1);
                    words(o, n);
                    mbs(o, l);
                }
            }
        }
    }
    pub fn oaddrs(o: &mut W, v: &Option<Vec<model::Address>>) {
        match v {
            None => o.u8(0),
            Some(v) => {
                o.u8(1);
                addrs(o, v);
            }
        }
    }
    pub fn id(o: &mut W, x: &Id) {
        o.s(&x.0);
        o.s(&x.1);
    }
    pub fn oid(o: &mut W, x: &Option<Id>) {
        match x {
            None => o.u8(0),
            Some(x) => {
                o.u8(1);
                id(o, x);
            }
        }
    }
    pub fn ids(o: &mut W, v: &Option<Vec<Id>>) {
        match v {
            None => o.u8(0),
            Some(v) => {
                o.u8(1);
                o.n(v.len());
                for x in v {
                    id(o, x);
                }
            }
        }
    }
    pub fn ostr(o: &mut W, x: &Option<S>) {
        match x {
            None => o.u8(0),
            Some(x) => {
                o.u8(1);
                o.s(x);
            }
        }
    }
    pub fn trace(o: &mut W, t: &Trace) {
        match &t.path {
            None => o.u8(0),
            Some(None) => o.u8(1),
            Some(Some(a)) => {
                o.u8(2);
                ad(o, a);
            }
        }
        o.n(t.received.len());
        for (t, d) in &t.received {
            o.n(t.len());
            for x in t {
                match x {
                    Tok::Word(w) => {
                        o.u8(0);
                        o.s(w);
                    }
                    Tok::Addr(a) => {
                        o.u8(1);
                        ad(o, a);
                    }
                    Tok::Domain(w) => {
                        o.u8(2);
                        o.s(w);
                    }
                }
            }
            dt(o, d);
        }
        o.n(t.resent.len());
        for x in &t.resent {
            match x {
                Resent::Date(d) => {
                    o.u8(0);
                    dt(o, d);
                }
                Resent::From(v) => {
                    o.u8(1);
                    mbs(o, v);
                }
                Resent::Sender(m) => {
                    o.u8(2);
                    mb(o, m);
                }
                Resent::To(v) => {
                    o.u8(3);
                    addrs(o, v);
                }
                Resent::Cc(v) => {
                    o.u8(4);
                    addrs(o, v);
                }
                Resent::Bcc(v) => {
                    o.u8(5);
                    addrs(o, v);
                }
                Resent::Id(x) => {
                    o.u8(6);
                    id(o, x);
                }
            }
        }
    }
    pub fn bad(o: &mut W, e: &Bad) {
        match e {
            Bad::Duplicate(n) => {
                o.u8(1);
                o.bytes(n);
            }
            Bad::Missing(n) => {
                o.u8(2);
                o.bytes(n);
            }
            Bad::Other => o.u8(3),
        }
    }
    pub fn params(o: &mut W, p: &[(S, S)]) {
        o.n(p.len());
        for (n, v) in p {
            o.s(n);
            o.s(v);
        }
    }
    pub fn odt(o: &mut W, d: &Option<Dt>) {
        match d {
            None => o.u8(0),
            Some(d) => {
                o.u8(1);
                dt(o, d);
            }
        }
    }
    pub fn raw(z: &mut Sec, r: &Raw) {
        {
            let o = &mut z.w(CT);
            o.u8(r.ct.ty);
            if r.ct.ty == 7 {
                o.s(&r.ct.name);
            }
            o.s(&r.ct.sub);
            params(o, &r.ct.params);
        }
        {
            let o = &mut z.w(DISP);
            match &r.disp {
                None => o.u8(0),
                Some(d) => {
                    o.u8(1);
                    o.u8(d.ty);
                    if d.ty == 2 {
                        o.s(&d.name);
                    }
                    ostr(o, &d.filename);
                    odt(o, &d.creation);
                    odt(o, &d.modification);
                    odt(o, &d.read);
                    params(o, &d.params);
                }
            }
        }
        ostr(&mut z.w(DESC), &r.desc);
        oid(&mut z.w(CID), &r.id);
        {
            let o = &mut z.w(VALUE);
            let at = r.at;
            o.s(&S { b: r.value.clone(), from: at.unwrap_or(0), to: at.unwrap_or(0) + r.value.len(), copied: at.is_none() });
        }
        let o = &mut z.w(UNKNOWN);
        o.n(r.extra.len());
        for (n, v) in &r.extra {
            o.s(n);
            o.s(v);
        }
    }
    pub fn kinds(o: &mut W, f: &[F]) {
        o.n(f.len());
        for x in f {
            let k = match x {
                F::Date(_) => 1,
                F::From(_) => 2,
                F::Sender(_) => 3,
                F::ReplyTo(_) => 4,
                F::To(_) => 5,
                F::Cc(_) => 6,
                F::Bcc(_) => 7,
                F::MessageId(_) => 8,
                F::InReplyTo(_) => 9,
                F::References(_) => 10,
                F::Subject(_) => 11,
                F::Comments(_) => 12,
                F::Keywords(_) => 13,
                F::Mime(a, b) => {
                    o.u8(*a);
                    o.u8(*b);
                    14
                }
                F::ContentType(_) => 15,
                F::Encoding(_) => 16,
                F::ContentId(_) => 17,
                F::Description(_) => 18,
                F::Disposition(_) => 19,
                F::Trace(_) => 20,
                F::Unknown(n, v) => {
                    o.s(n);
                    o.s(v);
                    21
                }
            };
            o.u8(k);
        }
    }
    pub fn msg(z: &mut Sec, m: &Msg, full: bool, data: &[u8]) {
        z.w(STATUS).u8(0);
        dt(&mut z.w(DATE), &m.date);
        mbs(&mut z.w(ADDR), &m.from);
        oaddrs(&mut z.w(ADDR), &m.reply_to);
        oaddrs(&mut z.w(ADDR), &m.to);
        oaddrs(&mut z.w(ADDR), &m.cc);
        oaddrs(&mut z.w(ADDR), &m.bcc);
        mb(&mut z.w(SENDER), &m.sender);
        {
            let o = &mut z.w(IDS);
            oid(o, &m.message_id);
            ids(o, &m.in_reply_to);
            ids(o, &m.references);
        }
        {
            let o = &mut z.w(TEXT);
            ostr(o, &m.subject);
            o.n(m.comments.len());
            for x in &m.comments {
                o.s(x);
            }
        }
        {
            let o = &mut z.w(KEYW);
            o.n(m.keywords.len());
            for x in &m.keywords {
                words(o, x);
            }
        }
        {
            let o = &mut z.w(TRACE);
            o.n(m.trace.len());
            for x in &m.trace {
                trace(o, x);
            }
        }
        {
            let o = &mut z.w(UNKNOWN);
            o.n(m.unknown.len());
            for (n, v) in &m.unknown {
                o.s(n);
                o.s(v);
            }
        }
        if full {
            raw(z, &m.raw);
        } else {
            let o = &mut z.w(BODY);
            match m.body {
                None => o.u8(0),
                Some((a, b)) => {
                    o.u8(1);
                    o.s(&S { b: data[a..b].to_vec(), from: a, to: b, copied: false });
                }
            }
        }
    }
}
