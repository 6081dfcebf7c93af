//! Charset oracle: tables from independent sources, plain decoding loops.
use crate::tables::*;

pub enum R {
    Text(Vec<u8>),
    Invalid,
    Unknown,
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    crate::model::same(a, b)
}
/// 0 unknown, 1..16 ISO-8859-x, 17 ISO-6937, 18 GB2312, 19 UTF-8
fn kind(n: &[u8]) -> u8 {
    if eq(n, b"utf-8") || eq(n, b"us-ascii") {
        return 19;
    }
    if eq(n, b"iso-6937") {
        return 17;
    }
    if eq(n, b"gb2312") {
        return 18;
    }
    if n.len() < 10 || n.len() > 11 || !eq(&n[..9], b"iso-8859-") {
        return 0;
    }
    let d = n[9];
    if n.len() == 10 {
        return if d >= b'1' && d <= b'9' { d - b'0' } else { 0 };
    }
    let e = n[10];
    if d == b'1' && (e == b'0' || e == b'1' || e == b'3' || e == b'4' || e == b'5' || e == b'6') {
        return 10 + (e - b'0');
    }
    0
}
pub fn known(n: &[u8]) -> bool {
    kind(n) != 0
}
fn push(o: &mut Vec<u8>, c: u16) {
    if c < 0x80 {
        o.push(c as u8);
    } else if c < 0x800 {
        o.push(0xC0 | (c >> 6) as u8);
        o.push(0x80 | (c & 63) as u8);
    } else {
        o.push(0xE0 | (c >> 12) as u8);
        o.push(0x80 | ((c >> 6) & 63) as u8);
        o.push(0x80 | (c & 63) as u8);
    }
}
fn push_or_bad(o: &mut Vec<u8>, c: u16) {
    if c == 0 {
        push(o, 0xFFFD);
    } else {
        push(o, c);
    }
}
fn latin(k: u8) -> &'static [u16; 96] {
    match k {
        1 => &L1,
        2 => &L2,
        3 => &L3,
        4 => &L4,
        5 => &L5,
        6 => &L6,
        7 => &L7,
        8 => &L8,
        9 => &L9,
        10 => &L10,
        11 => &L11,
        13 => &L13,
        14 => &L14,
        15 => &L15,
        _ => &L16,
    }
}
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    let cont = |i: usize| i < b.len() && b[i] >= 0x80 && b[i] <= 0xBF;
    while i < b.len() {
        let c = b[i];
        if c < 0x80 {
            i += 1;
        } else if c >= 0xC2 && c <= 0xDF {
            if !cont(i + 1) {
                return false;
            }
            i += 2;
        } else if c >= 0xE0 && c <= 0xEF {
            if !cont(i + 1) || !cont(i + 2) {
                return false;
            }
            if c == 0xE0 && b[i + 1] < 0xA0 {
                return false;
            }
            if c == 0xED && b[i + 1] > 0x9F {
                return false;
            }
            i += 3;
        } else if c >= 0xF0 && c <= 0xF4 {
            if !cont(i + 1) || !cont(i + 2) || !cont(i + 3) {
                return false;
            }
            if c == 0xF0 && b[i + 1] < 0x90 {
                return false;
            }
            if c == 0xF4 && b[i + 1] > 0x8F {
                return false;
            }
            i += 4;
        } else {
            return false;
        }
    }
    true
}
pub fn decode(name: &[u8], d: &[u8]) -> R {
    let k = kind(name);
    if k == 0 {
        return R::Unknown;
    }
    if k == 19 {
        return if utf8_ok(d) { R::Text(d.to_vec()) } else { R::Invalid };
    }
    let mut o = Vec::new();
    let mut i = 0;
    while i < d.len() {
        let c = d[i];
        i += 1;
        if c < 0x80 {
            o.push(c);
        } else if k == 18 {
            if i == d.len() {
                push(&mut o, 0xFFFD);
                break;
            }
            let e = d[i];
            i += 1;
            let u = if c >= 0xA1 && c <= 0xFE && e >= 0xA1 && e <= 0xFE { GB[(c as usize - 0xA1) * 94 + (e as usize - 0xA1)] } else { 0 };
            push_or_bad(&mut o, u);
        } else if k == 17 {
            if c < 0xA0 {
                push(&mut o, 0xFFFD);
            } else if c >= 0xC1 && c <= 0xCF {
                if i == d.len() {
                    push(&mut o, 0xFFFD);
                    break;
                }
                let e = d[i];
                i += 1;
                let u = if e >= 0x20 && e < 0x80 { P6937[(c as usize - 0xC1) * 96 + (e as usize - 0x20)] } else { 0 };
                push_or_bad(&mut o, u);
            } else {
                push_or_bad(&mut o, S6937[c as usize - 0xA0]);
            }
        } else if c >= 0xA0 {
            push_or_bad(&mut o, latin(k)[c as usize - 0xA0]);
        }
        // 0x80-0x9F of ISO-8859: control codes, no graphic character, dropped
    }
    R::Text(o)
}
