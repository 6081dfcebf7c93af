#![allow(dead_code)]
#![allow(clippy::all)]
mod charsets;
mod model;
mod ser;
mod tables;

use model::{lower, same, Bad, Ent, Raw, P};
use ser::*;

#[cfg(not(native))]
mod sym {
    extern "C" {
        fn __sym_assert(cond: u32, id: u32);
        fn __sym_out(p: *const u8, n: usize);
        fn __sym_cover(id: u32);
        fn __sym_reset();
        static mut __sym_hash_mode: u64;
    }
    /// Give every global variable and thread local its initial value again, as in a fresh process.
    pub fn reset() {
        unsafe { __sym_reset() }
    }
    /// 0: hash maps iterate in insertion order; !0: in an order that depends on the keys.
    pub fn hash_mode(v: u64) {
        unsafe { core::ptr::write_volatile(&raw mut __sym_hash_mode, v) }
    }
    pub fn check(c: bool, id: usize) {
        unsafe { __sym_assert(c as u32, id as u32) }
    }
    pub fn out(b: &[u8]) {
        unsafe { __sym_out(b.as_ptr(), b.len()) }
    }
    pub fn cover(id: usize) {
        unsafe { __sym_cover(id as u32) }
    }
}
#[cfg(native)]
mod sym {
    use std::cell::RefCell;
    thread_local! {
        pub static LOG: RefCell<(u64, Vec<usize>)> = RefCell::new((0xcbf29ce484222325, Vec::new()));
    }
    pub fn check(c: bool, id: usize) {
        if !c {
            LOG.with(|l| l.borrow_mut().1.push(id))
        }
    }
    pub fn out(b: &[u8]) {
        LOG.with(|l| {
            for x in b {
                let h = &mut l.borrow_mut().0;
                *h = (*h ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        })
    }
    pub fn cover(_id: usize) {}
}
use sym::*;

// assertion ids: 0..15 sections (all features), 32..47 sections (default features), then:
pub const ENTITY: usize = 64; // result of RawEntity::parse
pub const PARTS: usize = 65; // number of parts
pub const PART: usize = 70; // + section: a field of a part
pub const A_B64: usize = 90;
pub const A_QP: usize = 91;
pub const A_UTF8: usize = 92;
pub const A_CTRL: usize = 93;
pub const A_SLICE: usize = 94;
pub const A_CONST: usize = 95;
pub const A_ENC: usize = 96; // + encoders
pub const A_CONF: usize = 110; // + section: the two configurations disagree
pub const A_KIND: usize = 130;
pub const A_PURE: usize = 140; // + section
pub const A_ENTRY: usize = 160;
pub const A_OWN: usize = 170; // + section

fn bit(i: usize) -> u32 {
    1 << i
}
const HEAD: u32 = 1 | 1 << KINDS | 1 << UNKNOWN;
const ALL: u32 = 0xFFFF;

fn eq(r: &Sec, m: &Sec, mask: u32, base: usize) {
    let mut i = 0;
    while i < N {
        if mask & bit(i) != 0 {
            out(&[base as u8, i as u8]);
            out(&r.s[i].b);
            check(same(&r.s[i].b, &m.s[i].b), base + i);
        }
        i += 1;
    }
}

struct Modelled {
    z: Sec,
    raw: Option<Raw>,
}
fn modelled(d: &[u8], full: bool) -> Modelled {
    let mut z = sections(d);
    let mut raw = None;
    match model::split(d, full) {
        Err(e) => {
            m::bad(&mut z.w(STATUS), &e);
            z.w(KINDS).u8(255);
        }
        Ok((f, at)) => {
            m::kinds(&mut z.w(KINDS), &f);
            z.w(KINDS).num(at.unwrap_or(usize::MAX));
            match model::message(d, f, at, full) {
                Err(e) => m::bad(&mut z.w(STATUS), &e),
                Ok(x) => {
                    m::msg(&mut z, &x, full, d);
                    raw = Some(x.raw);
                    cover(if full { 0 } else { 1 });
                }
            }
        }
    }
    Modelled { z, raw }
}
fn offset(d: &[u8], b: Option<&[u8]>) -> usize {
    match b {
        None => usize::MAX,
        Some(b) => (b.as_ptr() as usize).wrapping_sub(d.as_ptr() as usize),
    }
}
fn real_full(d: &[u8], like: Option<&Raw>) -> Sec {
    let mut z = sections(d);
    match epa::prelude::parse_message(d) {
        Err(_) => z.w(KINDS).u8(255),
        Ok((f, b)) => {
            full::kinds(&mut z.w(KINDS), &f);
            let at = offset(d, b);
            z.w(KINDS).num(at);
        }
    }
    match epa::prelude::Email::parse(d) {
        Err(e) => a::error(&mut z.w(STATUS), &e),
        Ok(x) => full::email(&mut z, &x, like),
    }
    z
}
fn real_default(d: &[u8]) -> Sec {
    let mut z = sections(d);
    match epd::prelude::parse_message(d) {
        Err(_) => z.w(KINDS).u8(255),
        Ok((f, b)) => {
            dflt::kinds(&mut z.w(KINDS), &f);
            let at = match &b {
                None => usize::MAX,
                Some(std::borrow::Cow::Borrowed(s)) => offset(d, Some(s.as_bytes())),
                Some(_) => 0,
            };
            z.w(KINDS).num(at);
        }
    }
    match epd::prelude::Email::parse(d) {
        Err(e) => self::d::error(&mut z.w(STATUS), &e),
        Ok(x) => dflt::email(&mut z, &x),
    }
    z
}
fn compare_full(d: &[u8], mask: u32) -> Option<Raw> {
    let m = modelled(d, true);
    let r = real_full(d, m.raw.as_ref());
    eq(&r, &m.z, mask, 0);
    m.raw
}
fn compare_default(d: &[u8], mask: u32) {
    let m = modelled(d, false);
    let r = real_default(d);
    eq(&r, &m.z, mask, 32);
}
/// Real results against the model: header-level sections `mask`, in both builds.
fn both(d: &[u8], mask: u32) {
    compare_full(d, mask | HEAD);
    compare_default(d, mask | HEAD);
}

fn part_sections(x: &epa::mime::RawEntity, y: &Raw, mask: u32, base: usize) {
    let (mut r, mut m) = (sections(&[]), sections(&[]));
    full::raw(&mut r, x, Some(y));
    self::m::raw(&mut m, y);
    eq(&r, &m, mask, base);
}
const ENT: u32 = 1 << CT | 1 << DISP | 1 << DESC | 1 << CID | 1 << VALUE | 1 << UNKNOWN;

fn entity(x: &epa::mime::RawEntity, y: &Raw, mask: u32, depth: usize) {
    use epa::mime::Entity;
    match (x.parse(), model::entity(y)) {
        (Err(_), Ent::Bad) => {
            out(b"B");
            cover(10);
        }
        (Ok(Entity::Unknown), Ent::Unknown) => {
            out(b"U");
            cover(11);
        }
        (Ok(Entity::Text { subtype, value }), Ent::Text(t)) => {
            out(b"T");
            cover(12);
            out(value.as_bytes());
            check(same(subtype.as_bytes(), &y.ct.sub.b), ENTITY);
            check(same(value.as_bytes(), &t), ENTITY);
        }
        (Ok(Entity::Multipart { subtype, content }), Ent::Multi(v)) => {
            out(b"M");
            cover(13);
            check(same(subtype.as_bytes(), &y.ct.sub.b), ENTITY);
            check(content.len() == v.len(), PARTS);
            let mut i = 0;
            while i < content.len() && i < v.len() {
                part_sections(&content[i], &v[i], mask, PART);
                if depth > 0 {
                    entity(&content[i], &v[i], mask, depth - 1);
                }
                i += 1;
            }
        }
        _ => check(false, ENTITY),
    }
}
/// Message plus everything below it.
fn deep(d: &[u8], mask: u32, parts: u32) {
    let m = modelled(d, true);
    let mut r = sections(d);
    let e = epa::prelude::Email::parse(d);
    match &e {
        Err(e) => a::error(&mut r.w(STATUS), e),
        Ok(x) => full::email(&mut r, x, m.raw.as_ref()),
    }
    eq(&r, &m.z, mask | 1, 0);
    if let (Ok(x), Some(y)) = (&e, &m.raw) {
        entity(&x.mime_entity, y, parts, 3);
    }
}

// ---- C01
fn walk(x: &epa::mime::RawEntity, depth: usize) {
    match x.parse() {
        Err(_) => out(b"e"),
        Ok(epa::mime::Entity::Unknown) => out(b"u"),
        Ok(epa::mime::Entity::Text { value, .. }) => out(value.as_bytes()),
        Ok(epa::mime::Entity::Multipart { content, .. }) => {
            out(&[content.len() as u8]);
            if depth > 0 {
                for c in content.iter() {
                    walk(c, depth - 1);
                }
            }
        }
    }
}
fn p01(d: &[u8]) {
    out(&[epd::prelude::Email::parse(d).is_ok() as u8, epd::prelude::parse_message(d).is_ok() as u8]);
    if let Ok(m) = epa::prelude::Email::parse(d) {
        cover(0);
        walk(&m.mime_entity, 4);
    }
}
fn p01d(d: &[u8]) {
    if let Ok(x) = epa::prelude::decode_base64(d.to_vec()) {
        out(&x);
        cover(0);
    }
    out(&epa::prelude::decode_qp(d.to_vec()));
    cover(1);
}
// ---- C02
fn has(d: &[u8], x: &[u8]) -> bool {
    let mut i = 0;
    while i + x.len() <= d.len() {
        if same(&d[i..i + x.len()], x) {
            return true;
        }
        i += 1;
    }
    false
}
fn printable(b: &[u8]) -> bool {
    for c in b {
        if !((*c >= 32 && *c <= 126) || *c == 9) {
            return false;
        }
    }
    true
}
fn text_ok(z: &Sec, mask: u32, may_decode: bool) {
    let mut i = 0;
    while i < N {
        if mask & bit(i) != 0 {
            for p in z.s[i].prov.iter() {
                let b = &z.s[i].b[p.off..p.off + p.len];
                if p.cat == RAW || p.kind != 1 || !may_decode {
                    check(printable(b), A_CTRL);
                    cover(2);
                } else {
                    check(charsets::utf8_ok(b), A_UTF8);
                    cover(3);
                }
            }
            out(&z.s[i].b);
        }
        i += 1;
    }
}
const TEXTS: u32 = ALL & !(1 << VALUE) & !(1 << BODY);
fn texts_below(x: &epa::mime::RawEntity, y: &Raw, depth: usize) {
    let mut r = sections(&[]);
    full::raw(&mut r, x, Some(y));
    text_ok(&r, TEXTS, true);
    match (x.parse(), model::entity(y)) {
        (Ok(epa::mime::Entity::Text { value, .. }), _) => {
            out(value.as_bytes());
            check(charsets::utf8_ok(value.as_bytes()), A_UTF8);
            cover(4);
        }
        (Ok(epa::mime::Entity::Multipart { content, .. }), Ent::Multi(v)) => {
            if depth > 0 {
                let mut i = 0;
                while i < content.len() && i < v.len() {
                    texts_below(&content[i], &v[i], depth - 1);
                    i += 1;
                }
            }
        }
        _ => {}
    }
}
fn p02(d: &[u8]) {
    let m = modelled(d, true);
    let may = has(d, b"=?") || has(d, b"%");
    text_ok(&real_full(d, m.raw.as_ref()), TEXTS, may);
    let z = real_default(d);
    text_ok(&z, TEXTS, false);
    for c in z.s[BODY].b.iter().skip(4) {
        check(*c < 128, A_UTF8);
    }
    if let (Ok(x), Some(y)) = (epa::prelude::Email::parse(d), &m.raw) {
        texts_below(&x.mime_entity, y, 2);
    }
}
// ---- field comparisons
fn p03(d: &[u8]) {
    both(d, bit(TEXT) | bit(DESC));
}
fn p04(d: &[u8]) {
    both(d, ALL & !bit(VALUE) & !bit(BODY));
}
fn p05(d: &[u8]) {
    both(d, bit(SENDER) | bit(TEXT) | bit(KEYW) | bit(ADDR));
}
fn p06(d: &[u8]) {
    both(d, bit(DATE) | bit(TRACE) | bit(DISP));
}
fn p07(d: &[u8]) {
    both(d, bit(ADDR) | bit(SENDER) | bit(TRACE));
}
fn p08(d: &[u8]) {
    both(d, bit(ADDR) | bit(SENDER) | bit(IDS) | bit(DATE) | bit(KEYW) | bit(TRACE) | bit(CT) | bit(DISP) | bit(CID));
}
fn p09(d: &[u8]) {
    both(d, bit(IDS) | bit(CID) | bit(TRACE));
}
fn p10(d: &[u8]) {
    both(d, bit(TRACE));
}
fn p11(d: &[u8]) {
    compare_full(d, HEAD | bit(VALUE));
}
fn p12(d: &[u8]) {
    compare_default(d, HEAD | bit(BODY));
}
fn p13(d: &[u8]) {
    let r = epa::prelude::decode_base64(d.to_vec());
    match (&r, model::base64(d)) {
        (Ok(x), Some(y)) => {
            out(x);
            check(same(x, &y), A_B64);
            cover(5);
        }
        (Err(_), None) => {
            out(b"E");
            cover(6);
        }
        _ => check(false, A_B64),
    }
}
fn p13m(d: &[u8]) {
    both_value(d);
}
fn both_value(d: &[u8]) {
    deep(d, bit(VALUE) | bit(TEXT), bit(VALUE));
}
fn p14(d: &[u8]) {
    let x = epa::prelude::decode_qp(d.to_vec());
    out(&x);
    cover(7);
    check(same(&x, &model::qp(d)), A_QP);
}
fn p14m(d: &[u8]) {
    both_value(d);
}
fn p15(d: &[u8]) {
    compare_full(d, HEAD | bit(TEXT) | bit(KEYW) | bit(ADDR) | bit(SENDER) | bit(DESC) | bit(TRACE));
}
fn p16(d: &[u8]) {
    deep(d, bit(CT) | bit(TEXT) | bit(VALUE), bit(CT) | bit(VALUE));
}
fn p17(d: &[u8]) {
    compare_full(d, HEAD | bit(CT));
}
fn p18(d: &[u8]) {
    compare_full(d, HEAD | bit(CT) | bit(DISP));
}
fn p19(d: &[u8]) {
    compare_full(d, HEAD | bit(DISP));
}
fn p20(d: &[u8]) {
    compare_full(d, HEAD | bit(VALUE));
    deep(d, bit(VALUE), bit(VALUE));
}
fn p21(d: &[u8]) {
    deep(d, bit(CT) | bit(VALUE), bit(VALUE));
}
fn p22(d: &[u8]) {
    deep(d, bit(VALUE), ENT);
}
// ---- C23
fn p23(d: &[u8]) {
    let (x, y) = match (epa::prelude::Email::parse(d), epd::prelude::Email::parse(d)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => {
            out(b"E");
            return;
        }
    };
    if has(d, b"=?") {
        return;
    }
    // compatibility-fixes (another feature) accepts more; not compared
    let (e1, f1) = P { s: d, full: false, compat: false }.fields(0);
    let (e2, f2) = P { s: d, full: false, compat: true }.fields(0);
    let (mut k1, mut k2) = (sections(d), sections(d));
    m::kinds(&mut k1.w(0), &f1);
    m::kinds(&mut k2.w(0), &f2);
    if e1 != e2 || !same(&k1.s[0].b, &k2.s[0].b) {
        return;
    }
    cover(8);
    let (mut zx, mut zy) = (sections(d), sections(d));
    a::email(&mut zx, &x);
    self::d::email(&mut zy, &y);
    eq(&zx, &zy, ALL & !bit(UNKNOWN), A_CONF);
    use epa::prelude::Field as FA;
    use epd::prelude::Field as FD;
    if let (Ok((fx, bx)), Ok((fy, by))) = (epa::prelude::parse_message(d), epd::prelude::parse_message(d)) {
        check(fx.len() == fy.len(), A_KIND);
        check(bx.is_some() == by.is_some(), A_KIND);
        if let (Some(bx), Some(by)) = (&bx, &by) {
            check(same(bx, by.as_bytes()), A_KIND);
        }
        let mut unknown = 0;
        let mut i = 0;
        while i < fx.len() && i < fy.len() {
            let name: &[u8] = match &fx[i] {
                FA::MimeVersion(..) => b"mime-version",
                FA::ContentType { .. } => b"content-type",
                FA::ContentTransferEncoding(_) => b"content-transfer-encoding",
                FA::ContentId(_) => b"content-id",
                FA::ContentDescription(_) => b"content-description",
                FA::ContentDisposition(_) => b"content-disposition",
                _ => b"",
            };
            if let FD::Unknown { name: n, value: v } = &fy[i] {
                if let FA::Unknown { name: n2, value: v2 } = &fx[i] {
                    check(same(n.as_bytes(), n2.as_bytes()) && same(v.as_bytes(), v2.as_bytes()), A_KIND);
                } else {
                    cover(9);
                    check(n.len() == name.len(), A_KIND);
                    let mut k = 0;
                    while k < n.len() && k < name.len() {
                        check(lower(n.as_bytes()[k]) == name[k], A_KIND);
                        k += 1;
                    }
                }
                // in the list of unknown fields, in order
                check(unknown < y.unknown_fields.len() && same(y.unknown_fields[unknown].0.as_bytes(), n.as_bytes()) && same(y.unknown_fields[unknown].1.as_bytes(), v.as_bytes()), A_KIND);
                unknown += 1;
            } else {
                check(name.is_empty(), A_KIND);
            }
            i += 1;
        }
    }
}
/// Without any feature: every header is an unknown one.
fn p23n(d: &[u8]) {
    let (mut z, mut y) = (sections(d), sections(d));
    match model::bare(d) {
        None => z.w(STATUS).u8(3),
        Some((v, b)) => {
            z.w(STATUS).u8(0);
            let o = &mut z.w(UNKNOWN);
            o.n(v.len());
            for (n, v) in &v {
                o.s(n);
                o.s(v);
            }
            let o = &mut z.w(BODY);
            match b {
                None => o.u8(0),
                Some(i) => {
                    o.u8(1);
                    o.s(&model::S { b: d[i..].to_vec(), from: i, to: d.len(), copied: false });
                }
            }
        }
    }
    match epn::prelude::Email::parse(d) {
        Err(_) => y.w(STATUS).u8(3),
        Ok(m) => {
            cover(26);
            y.w(STATUS).u8(0);
            let o = &mut y.w(UNKNOWN);
            o.n(m.unknown_fields.len());
            for (n, v) in &m.unknown_fields {
                o.str(n, false, RAW);
                o.cow(v, RAW);
            }
            let o = &mut y.w(BODY);
            match &m.body {
                None => o.u8(0),
                Some(b) => {
                    o.u8(1);
                    o.cow(b, RAW);
                }
            }
            if let Ok((f, b)) = epn::prelude::parse_message(d) {
                check(f.len() == m.unknown_fields.len(), A_KIND);
                check(b == m.body, A_KIND);
            } else {
                check(false, A_KIND);
            }
        }
    }
    eq(&y, &z, ALL, A_CONF);
    slices(&y, &z, ALL);
}
/// Compatibility fixes (not compared here) change nothing about the header section.
fn same_with_fixes(d: &[u8], full: bool) -> bool {
    let (e1, f1) = P { s: d, full, compat: false }.fields(0);
    let (e2, f2) = P { s: d, full, compat: true }.fields(0);
    let (mut k1, mut k2) = (sections(d), sections(d));
    m::kinds(&mut k1.w(0), &f1);
    m::kinds(&mut k2.w(0), &f2);
    e1 == e2 && same(&k1.s[0].b, &k2.s[0].b)
}
/// MIME alone against all features.
fn p23m(d: &[u8]) {
    let (x, y) = match (epa::prelude::Email::parse(d), epm::prelude::Email::parse(d)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(_), Ok(y)) => {
            // a second disposition, or the fixes
            out(b"E");
            if same_with_fixes(d, true) {
                let mut n = 0;
                for (k, _) in &y.unknown_fields {
                    if k.len() == 19 && lower(k.as_bytes()[8]) == b'd' && lower(k.as_bytes()[9]) == b'i' {
                        n += 1;
                    }
                }
                check(n >= 2, A_KIND);
            }
            return;
        }
        (Ok(_), Err(_)) => {
            check(!same_with_fixes(d, true), A_KIND);
            return;
        }
        _ => return,
    };
    if !same_with_fixes(d, true) {
        return;
    }
    cover(27);
    let like = likeness(d);
    let (mut zx, mut zy) = (sections(d), sections(d));
    a::email(&mut zx, &x);
    mm::email(&mut zy, &y);
    // the parts of a multipart may use the fixes: compared only when there is no dot in front of a dot, an at sign or a bracket
    light_a(&mut zx.w(CT), &x.mime_entity, like.as_ref(), if fixable(&x.mime_entity.value) || has(&x.mime_entity.value, b"=?") { 0 } else { 2 });
    light_m(&mut zy.w(CT), &y.mime_entity, like.as_ref(), if fixable(&x.mime_entity.value) || has(&x.mime_entity.value, b"=?") { 0 } else { 2 });
    eq(&zx, &zy, ALL & !bit(UNKNOWN), A_CONF);
    // the disposition stays in the list of unknown fields, in its place
    let mut i = 0;
    let mut dispositions = 0;
    for (n, v) in &y.unknown_fields {
        if i < x.unknown_fields.len() && same(n.as_bytes(), x.unknown_fields[i].0.as_bytes()) && (has(v.as_bytes(), b"=?") || same(v.as_bytes(), x.unknown_fields[i].1.as_bytes())) {
            // (encoded words in unrecognised headers are decoded by a feature of their own)
            if n.len() == 19 && has(v.as_bytes(), b"=?") {
                return;
            }
            i += 1;
        } else {
            dispositions += 1;
            let w = b"content-disposition";
            check(n.len() == w.len(), A_KIND);
            let mut k = 0;
            while k < n.len() && k < w.len() {
                check(lower(n.as_bytes()[k]) == w[k], A_KIND);
                k += 1;
            }
        }
    }
    check(i == x.unknown_fields.len(), A_KIND);
    check(dispositions == x.mime_entity.disposition.is_some() as usize, A_KIND);
}
fn fixable(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'.' && (i + 1 == b.len() || b[i + 1] == b'.' || b[i + 1] == b'@' || b[i + 1] == b'>' || b[i + 1] == b' ' || b[i + 1] == b'(' || b[i + 1] == b'\r' || b[i + 1] == b'\t') {
            return true;
        }
        i += 1;
    }
    false
}
// ---- C24
fn slices(r: &Sec, m: &Sec, mask: u32) {
    let mut i = 0;
    while i < N {
        if mask & bit(i) != 0 {
            let (p, q) = (&r.s[i].prov, &m.s[i].prov);
            let mut k = 0;
            while k < p.len() {
                if p[k].kind == 2 {
                    let b = &r.s[i].b[p[k].off..p[k].off + p[k].len];
                    check(b.is_empty() || same(b, b"plain") || same(b, b"charset") || same(b, b"us-ascii"), A_CONST);
                }
                if k < q.len() && p.len() == q.len() && q[k].kind == 0 && q[k].len > 0 {
                    cover(14);
                    check(p[k].kind == 0 && p[k].from == q[k].from && p[k].to == q[k].to, A_SLICE);
                }
                out(&[p[k].kind, p[k].from as u8, p[k].to as u8]);
                k += 1;
            }
        }
        i += 1;
    }
}
fn p24(d: &[u8]) {
    let m = modelled(d, true);
    let r = real_full(d, m.raw.as_ref());
    slices(&r, &m.z, ALL);
    let m = modelled(d, false);
    let r = real_default(d);
    slices(&r, &m.z, ALL);
}
// ---- C26
fn no_long_line(e: &[u8], crlf_breaks: bool) -> bool {
    let mut n = 0;
    let mut i = 0;
    while i < e.len() {
        if e[i] == 13 && i + 1 < e.len() && e[i + 1] == 10 {
            n = 0;
            i += 2;
            continue;
        }
        n += 1;
        if n > 76 {
            return false;
        }
        i += 1;
    }
    let _ = crlf_breaks;
    true
}
fn p26b(d: &[u8]) {
    let e = epa::verif::encode_base64(d.to_vec());
    out(&e);
    cover(15);
    let mut i = 0;
    let mut ok = true;
    while i < e.len() {
        let c = e[i];
        if c == 13 {
            ok &= i + 1 < e.len() && e[i + 1] == 10;
        } else if c == 10 {
            ok &= i > 0 && e[i - 1] == 13;
        } else {
            ok &= c == b'=' || model::b64val(c).is_some();
        }
        i += 1;
    }
    check(ok, A_ENC);
    check(no_long_line(&e, true), A_ENC + 1);
    match model::base64(&e) {
        Some(x) => check(same(&x, d), A_ENC + 2),
        None => check(false, A_ENC + 2),
    }
    match epa::prelude::decode_base64(e) {
        Ok(x) => check(same(&x, d), A_ENC + 3),
        Err(_) => check(false, A_ENC + 3),
    }
}
fn p26q(d: &[u8]) {
    let e = epa::verif::encode_qp(d.to_vec());
    out(&e);
    cover(16);
    let mut i = 0;
    let mut ok = true;
    while i < e.len() {
        let c = e[i];
        if c == 13 {
            ok &= i + 1 < e.len() && e[i + 1] == 10;
        } else if c == 10 {
            ok &= i > 0 && e[i - 1] == 13;
        } else if c == 9 || c == 32 {
            ok &= i + 1 < e.len() && e[i + 1] != 13;
        } else {
            ok &= c >= 33 && c <= 126;
        }
        i += 1;
    }
    check(ok, A_ENC + 4);
    check(no_long_line(&e, true), A_ENC + 5);
    check(same(&model::qp(&e), d), A_ENC + 6);
    check(same(&epa::prelude::decode_qp(e), d), A_ENC + 7);
}
// ---- C27: d = [prefix length, suffix length, prefix, message, suffix]
fn p27(d: &[u8]) {
    use std::convert::TryFrom;
    let (a, b) = (d[0] as usize, d[1] as usize);
    let inside = &d[2 + a..d.len() - b];
    let copy = inside.to_vec();
    let alone = &copy[..];
    let like = match model::split(alone, true) {
        Ok((f, at)) => model::message(alone, f, at, true).ok().map(|m| m.raw),
        Err(_) => None,
    };
    let x = real_full(alone, like.as_ref());
    let y = real_full(inside, like.as_ref());
    eq(&y, &x, ALL, A_PURE);
    provs(&x, &y);
    let x = real_default(alone);
    let y = real_default(inside);
    eq(&y, &x, ALL, A_PURE);
    provs(&x, &y);
    // entry points
    let mut z1 = sections(alone);
    let mut z2 = sections(alone);
    match epa::prelude::Email::parse(alone) {
        Ok(m) => full::email(&mut z1, &m, like.as_ref()),
        Err(e) => self::a::error(&mut z1.w(STATUS), &e),
    }
    match epa::prelude::Email::try_from(alone) {
        Ok(m) => {
            cover(17);
            full::email(&mut z2, &m, like.as_ref());
            check(m.mime_entity.parse() == m.mime_entity.parse(), A_ENTRY);
        }
        Err(e) => self::a::error(&mut z2.w(STATUS), &e),
    }
    eq(&z1, &z2, ALL, A_PURE);
    let mut z1 = sections(alone);
    let mut z2 = sections(alone);
    match epd::prelude::Email::parse(alone) {
        Ok(m) => dflt::email(&mut z1, &m),
        Err(e) => self::d::error(&mut z1.w(STATUS), &e),
    }
    match epd::prelude::Email::try_from(alone) {
        Ok(m) => {
            cover(18);
            dflt::email(&mut z2, &m)
        }
        Err(e) => self::d::error(&mut z2.w(STATUS), &e),
    }
    eq(&z1, &z2, ALL, A_PURE);
}
fn whole_entity(o: &mut Vec<u8>, x: &epa::mime::RawEntity, y: Option<&Raw>, depth: usize) {
    let mut r = sections(&[]);
    full::raw(&mut r, x, y);
    for s in r.s.iter() {
        o.extend_from_slice(&s.b);
    }
    match x.parse() {
        Err(_) => o.push(b'e'),
        Ok(epa::mime::Entity::Unknown) => o.push(b'u'),
        Ok(epa::mime::Entity::Text { value, .. }) => o.extend_from_slice(value.as_bytes()),
        Ok(epa::mime::Entity::Multipart { content, .. }) => {
            let v = match y.map(model::entity) {
                Some(Ent::Multi(v)) => v,
                _ => Vec::new(),
            };
            o.push(content.len() as u8);
            if depth > 0 {
                let mut i = 0;
                while i < content.len() {
                    whole_entity(o, &content[i], v.get(i), depth - 1);
                    i += 1;
                }
            }
        }
    }
}
/// Everything a caller can see of one message, in both builds.
fn whole(d: &[u8], like: Option<&Raw>) -> Vec<u8> {
    let mut o = Vec::new();
    for s in real_full(d, like).s.iter() {
        o.extend_from_slice(&s.b);
    }
    for s in real_default(d).s.iter() {
        o.extend_from_slice(&s.b);
    }
    if let Ok(m) = epa::prelude::Email::parse(d) {
        cover(19);
        whole_entity(&mut o, &m.mime_entity, like, 2);
    }
    o
}
fn likeness(d: &[u8]) -> Option<Raw> {
    match model::split(d, true) {
        Ok((f, at)) => model::message(d, f, at, true).ok().map(|m| m.raw),
        Err(_) => None,
    }
}
/// The result does not depend on the order in which hash maps happen to iterate.
fn p27h(d: &[u8]) {
    let like = likeness(d);
    #[cfg(not(native))]
    {
        hash_mode(0);
        let x = whole(d, like.as_ref());
        hash_mode(!0);
        let y = whole(d, like.as_ref());
        hash_mode(0);
        out(&x);
        check(same(&x, &y), A_ENTRY + 2);
    }
    #[cfg(native)]
    {
        // every map has its own random keys
        let x = whole(d, like.as_ref());
        out(&x);
        check((0..200).all(|_| whole(d, like.as_ref()) == x), A_ENTRY + 2);
    }
}
/// The result does not depend on what was parsed before: d = [length of the earlier message (2 bytes), earlier message, message].
fn p27s(d: &[u8]) {
    let n = d[0] as usize * 256 + d[1] as usize;
    let (before, d) = (&d[2..2 + n], &d[2 + n..]);
    let (lb, like) = (likeness(before), likeness(d));
    #[cfg(not(native))]
    {
        let x = whole(d, like.as_ref());
        reset();
        let _ = whole(before, lb.as_ref());
        let y = whole(d, like.as_ref());
        out(&x);
        check(same(&x, &y), A_ENTRY + 3);
    }
    #[cfg(native)]
    {
        let x = in_child(|| whole(d, like.as_ref()));
        let y = in_child(|| {
            let _ = whole(before, lb.as_ref());
            whole(d, like.as_ref())
        });
        let x = x.expect("fresh process");
        out(&x);
        check(y == Some(x), A_ENTRY + 3);
    }
}
/// The results of some messages do not depend on a longer history: d = [number of earlier messages, number of messages,
/// the length of each (2 bytes), the earlier messages, the messages]; every message also precedes the ones after it.
fn p27b(d: &[u8]) {
    let (na, n) = (d[0] as usize, d[0] as usize + d[1] as usize);
    let mut at = 2 + 2 * n;
    let mut ms = Vec::new();
    for i in 0..n {
        let l = d[2 + 2 * i] as usize * 256 + d[3 + 2 * i] as usize;
        let m = &d[at..at + l];
        ms.push(m);
        at += l;
    }
    let one = |m: &[u8]| whole(m, likeness(m).as_ref());
    let all = || -> Vec<Vec<u8>> {
        for m in ms[..na].iter() {
            let _ = whole(m, None);
        }
        ms[na..].iter().map(|m| one(m)).collect()
    };
    #[cfg(not(native))]
    {
        reset();
        let after = all();
        for (m, y) in ms[na..].iter().zip(after.iter()) {
            reset();
            let x = one(m);
            out(&x);
            check(same(&x, y), A_ENTRY + 3);
        }
    }
    #[cfg(native)]
    {
        let fresh: Vec<_> = ms[na..].iter().map(|m| in_child(|| one(m)).expect("fresh process")).collect();
        for x in fresh.iter() {
            out(x);
        }
        let y = in_child(|| all().iter().zip(fresh.iter()).map(|(y, x)| (y != x) as u8).collect());
        check(y.is_some_and(|y| y.iter().all(|b| *b == 0)), A_ENTRY + 3);
    }
}
/// Run f in a forked process and return what it returns.
#[cfg(native)]
fn in_child(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    extern "C" {
        fn fork() -> i32;
        fn pipe(p: *mut i32) -> i32;
        fn read(f: i32, p: *mut u8, n: usize) -> isize;
        fn write(f: i32, p: *const u8, n: usize) -> isize;
        fn close(f: i32) -> i32;
        fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
        fn _exit(c: i32) -> !;
    }
    unsafe {
        let mut p = [0i32; 2];
        assert!(pipe(p.as_mut_ptr()) == 0);
        let c = fork();
        assert!(c >= 0);
        if c == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let Ok(b) = r else { _exit(1) };
            let mut k = 0;
            while k < b.len() {
                let w = write(p[1], b.as_ptr().add(k), b.len() - k);
                if w <= 0 {
                    _exit(2)
                }
                k += w as usize;
            }
            _exit(0)
        }
        close(p[1]);
        let mut o = Vec::new();
        let mut buf = [0u8; 4096];
        loop {
            let n = read(p[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            o.extend_from_slice(&buf[..n as usize]);
        }
        close(p[0]);
        let mut st = 0;
        waitpid(c, &mut st, 0);
        if st == 0 {
            Some(o)
        } else {
            None
        }
    }
}
// ---- C28: clones and owned values
fn copies(e: &epa::mime::RawEntity, like: Option<&Raw>, d: &[u8], depth: usize) {
    use epa::mime::*;
    cover(20);
    let mut z = sections(d);
    full::raw(&mut z, e, like);
    let c = e.clone();
    check(c == *e && *e == c, A_OWN + 16);
    let mut k = sections(d);
    full::raw(&mut k, &c, like);
    eq(&k, &z, ENT, A_OWN);
    let composite = match &e.mime_type {
        ContentType::Message | ContentType::Multipart => true,
        _ => false,
    };
    check(e.mime_type.is_composite_type() == composite, A_OWN + 17);
    // owned copies of everything that can be made owned
    let ty: ContentType<'static> = e.mime_type.clone().into_owned();
    let disposition: Option<Disposition<'static>> = e.disposition.clone().map(|x| x.into_owned());
    check(ty == e.mime_type, A_OWN + 18);
    check(disposition == e.disposition, A_OWN + 18);
    if let Some(x) = &e.disposition {
        cover(21);
        let t: DispositionType<'static> = x.disposition_type.clone().into_owned();
        check(t == x.disposition_type, A_OWN + 18);
        if let DispositionType::Unknown(n) = &t {
            check(matches!(n, std::borrow::Cow::Owned(_)), A_OWN + 19);
        }
    }
    let o = RawEntity { mime_type: ty, disposition, ..c };
    let mut k = sections(d);
    full::raw(&mut k, &o, like);
    eq(&k, &z, ENT, A_OWN);
    if let ContentType::Unknown(n) = &o.mime_type {
        cover(22);
        check(matches!(n, std::borrow::Cow::Owned(_)), A_OWN + 19);
    }
    for p in &k.s[DISP].prov {
        check(p.kind == 1, A_OWN + 19);
    }
    // an owned value once more
    let ty = o.mime_type.clone().into_owned();
    check(ty == e.mime_type, A_OWN + 18);
    let again = o.disposition.clone().map(|x| x.into_owned());
    check(again == e.disposition, A_OWN + 18);
    if depth > 0 {
        let x = e.parse();
        let y = o.parse();
        check(x == y, A_OWN + 16);
        if let Ok(v) = &x {
            check(v.clone() == *v, A_OWN + 16);
        }
        if let Ok(Entity::Multipart { content, .. }) = &x {
            let v = match like.map(model::entity) {
                Some(Ent::Multi(v)) => v,
                _ => Vec::new(),
            };
            let mut i = 0;
            while i < content.len() {
                copies(&content[i], v.get(i), d, depth - 1);
                i += 1;
            }
        }
    }
}
fn p28(d: &[u8]) {
    use epa::prelude::Field;
    let like = likeness(d);
    if let Ok(m) = epa::prelude::Email::parse(d) {
        copies(&m.mime_entity, like.as_ref(), d, 2);
        let mut z = sections(d);
        self::a::email(&mut z, &m);
        let c = epa::prelude::Email {
            from: m.from.clone(),
            sender: m.sender.clone(),
            subject: m.subject.clone(),
            date: m.date.clone(),
            to: m.to.clone(),
            cc: m.cc.clone(),
            bcc: m.bcc.clone(),
            message_id: m.message_id.clone(),
            in_reply_to: m.in_reply_to.clone(),
            references: m.references.clone(),
            reply_to: m.reply_to.clone(),
            comments: m.comments.clone(),
            keywords: m.keywords.clone(),
            unknown_fields: m.unknown_fields.clone(),
            ..m
        };
        let mut k = sections(d);
        self::a::email(&mut k, &c);
        eq(&k, &z, ALL, A_OWN);
        check(c.date.clone() == c.date, A_OWN + 16);
    }
    if let Ok((f, _)) = epa::prelude::parse_message(d) {
        for x in &f {
            if let Field::ContentTransferEncoding(e) = x {
                cover(23);
                let o = e.clone().into_owned();
                check(o == *e && e.clone() == *e, A_OWN + 18);
                if let epa::mime::ContentTransferEncoding::Unknown(n) = &o {
                    cover(24);
                    check(matches!(n, std::borrow::Cow::Owned(_)), A_OWN + 19);
                }
                let again = o.clone().into_owned();
                check(again == *e, A_OWN + 18);
            }
        }
    }
}
// ---- C29: the work of parsing everything (its instructions are counted)
fn p29(d: &[u8]) {
    if let Ok(m) = epa::prelude::Email::parse(d) {
        cover(25);
        walk(&m.mime_entity, 4);
    }
    out(&[epd::prelude::Email::parse(d).is_ok() as u8]);
}
fn provs(x: &Sec, y: &Sec) {
    let mut i = 0;
    while i < N {
        let (p, q) = (&x.s[i].prov, &y.s[i].prov);
        let mut ok = p.len() == q.len();
        let mut k = 0;
        while ok && k < p.len() {
            ok = p[k].kind == q[k].kind && p[k].from == q[k].from && p[k].to == q[k].to;
            k += 1;
        }
        check(ok, A_ENTRY + 1);
        i += 1;
    }
}

macro_rules! entries {
    ($($n:ident $e:ident),*) => {
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $e(p: *const u8, n: usize) {
                $n(core::slice::from_raw_parts(p, n))
            }
        )*
        #[cfg(native)]
        fn lookup(name: &str) -> Option<fn(&[u8])> {
            match name {
                $( stringify!($e) => Some($n), )*
                _ => None,
            }
        }
    };
}
entries!(p01 e01, p01d e01d, p02 e02, p03 e03, p04 e04, p05 e05, p06 e06, p07 e07, p08 e08, p09 e09, p10 e10, p11 e11, p12 e12,
    p13 e13, p13m e13m, p14 e14, p14m e14m, p15 e15, p16 e16, p17 e17, p18 e18, p19 e19, p20 e20, p21 e21, p22 e22, p23 e23, p24 e24,
    p26b e26b, p26q e26q, p27 e27, p27h e27h, p27s e27s, p27b e27b, p23n e23n, p23m e23m, p28 e28, p29 e29);

/// replay FILE: each line `entry hex`; prints `hash panicked failed-assertions`.
#[cfg(native)]
fn main() {
    let file = std::env::args().nth(1).expect("file");
    let text = std::fs::read_to_string(file).expect("read");
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        eprintln!("PANIC {} {}", loc, i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or(i.payload().downcast_ref::<String>().cloned()).unwrap_or_default());
    }));
    for line in text.lines() {
        let mut it = line.split('\t');
        let (e, h) = (it.next().unwrap(), it.next().unwrap_or(""));
        let mut data = Vec::with_capacity(h.len() / 2);
        let hb = h.as_bytes();
        let v = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        for k in 0..hb.len() / 2 {
            data.push(v(hb[2 * k]) * 16 + v(hb[2 * k + 1]));
        }
        let data = data.into_boxed_slice();
        let f = lookup(e).expect("entry");
        sym::LOG.with(|l| *l.borrow_mut() = (0xcbf29ce484222325, Vec::new()));
        let r = std::panic::catch_unwind(|| f(&data));
        sym::LOG.with(|l| {
            let l = l.borrow();
            println!("{:016x} {} {}", l.0, r.is_err() as u8, l.1.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        });
    }
}
