//! Hexadecimal text: exactly strings of digit pairs are accepted, printing is canonical, and the two invert each other.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::borrow::Cow;
use std::convert::TryFrom;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::Arc;
use tedium::error::HexConvError;
use tedium::hexstring::HexString;
use tedium::*;

/// Any text of at most `chars` characters: every ASCII character, and one family of each longer width.
#[inline(never)]
fn text(chars: usize, ascii: bool) -> String {
    let n = sym::upto(chars);
    let mut v: Vec<u8> = Vec::with_capacity(4 * n);
    for _ in 0..n {
        match if ascii { 0 } else { sym::upto(3) } {
            0 => v.push(sym::u8() & 0x7f),
            1 => {
                let a = sym::u8() & 0x1f;
                sym::assume(a >= 2);
                v.push(0xc0 | a);
                v.push(0x80 | sym::u8() & 0x3f);
            }
            2 => {
                v.push(0xe1 + (sym::u8() & 7));
                v.push(0x80 | sym::u8() & 0x3f);
                v.push(0x80 | sym::u8() & 0x3f);
            }
            _ => {
                v.push(0xf1 + (sym::u8() & 1));
                v.push(0x80 | sym::u8() & 0x3f);
                v.push(0x80 | sym::u8() & 0x3f);
                v.push(0x80 | sym::u8() & 0x3f);
            }
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// the value of a hexadecimal digit, or 16
fn digit(c: u8) -> u8 {
    if c >= b'0' && c <= b'9' {
        c - b'0'
    } else if c >= b'a' && c <= b'f' {
        c - b'a' + 10
    } else if c >= b'A' && c <= b'F' {
        c - b'A' + 10
    } else {
        16
    }
}
fn print(b: &[u8], upper: bool) -> Vec<u8> {
    let mut s = Vec::with_capacity(2 * b.len());
    for &x in b {
        for d in [x >> 4, x & 15] {
            s.push(if d < 10 { b'0' + d } else if upper { b'A' + (d - 10) } else { b'a' + (d - 10) });
        }
    }
    s
}
/// the reference verdict: the bytes, or whether the length was the problem
fn reference(s: &[u8]) -> Result<Vec<u8>, bool> {
    if s.len() % 2 != 0 {
        return Err(true);
    }
    let mut out = Vec::with_capacity(s.len() / 2);
    for i in 0..s.len() / 2 {
        let (h, l) = (digit(s[2 * i]), digit(s[2 * i + 1]));
        if h == 16 || l == 16 {
            return Err(false);
        }
        out.push(h << 4 | l);
    }
    Ok(out)
}
fn verdict(r: Result<HexString, HexConvError>, s: &str) {
    match (r, reference(s.as_bytes())) {
        (Ok(h), Ok(b)) => {
            sym::cover("accepted");
            sym::check(same(h.as_bytes(), &b), "hexadecimal text was read as other bytes");
        }
        (Err(HexConvError::OddParity(t)), Err(true)) => {
            sym::cover("odd");
            sym::check(same(t.as_bytes(), s.as_bytes()), "the error does not carry the text");
        }
        (Err(HexConvError::NonHex(t)), Err(false)) => {
            sym::cover("bad digit");
            sym::check(same(t.as_bytes(), s.as_bytes()), "the error does not carry the text");
        }
        (Ok(_), Err(_)) => sym::check(false, "text that is not hexadecimal was accepted"),
        (Err(_), Ok(_)) => sym::check(false, "hexadecimal text was refused"),
        (Err(_), Err(_)) => sym::check(false, "the wrong reason was given for refusing text"),
    }
}
fn read(chars: usize, ascii: bool) {
    want!("accepted", "odd", "bad digit");
    let s = text(chars, ascii);
    verdict(HexString::from_hex(&s), &s)
}
/// every conversion accepts the same text
fn every(chars: usize) {
    want!("accepted", "odd", "bad digit");
    let s = text(chars, true);
    let r = match sym::upto(9) {
        0 => HexString::from_hex(&s),
        1 => HexString::from_hex(s.clone()),
        2 => HexString::try_from(&s[..]),
        3 => HexString::try_from(s.clone()),
        4 => HexString::try_from(Box::<str>::from(&s[..])),
        5 => HexString::try_from(Rc::<str>::from(&s[..])),
        6 => HexString::try_from(Arc::<str>::from(&s[..])),
        7 => HexString::try_from(Cow::Borrowed(&s[..])),
        8 => HexString::try_from(Cow::<str>::Owned(s.clone())),
        _ => HexString::from_str(&s),
    };
    verdict(r, &s)
}
/// printing is lower case, two digits per byte, and reads back
fn round(max: usize) {
    let b = sym::vec(sym::upto(max));
    let h = HexString::from_vec(b.clone());
    let t = h.to_hex();
    sym::check(same(t.as_bytes(), &print(&b, false)), "bytes are not printed as pairs of lower-case digits");
    match HexString::from_hex(&t) {
        Ok(x) => sym::check(same(x.as_bytes(), &b), "printed text does not read back"),
        Err(_) => sym::check(false, "printed text does not read back"),
    }
    let u = unsafe { String::from_utf8_unchecked(print(&b, true)) };
    match HexString::from_hex(&u) {
        Ok(x) => sym::check(same(x.as_bytes(), &b), "upper-case digits mean something else"),
        Err(_) => sym::check(false, "upper-case digits were refused"),
    }
    let f = StrictBuilder::from(b.clone()).into_hex();
    sym::check(same(f.as_bytes(), t.as_bytes()), "a builder prints differently");
}
fn formatted() {
    let b = sym::bytes::<2>();
    let h = HexString::from_vec(b.to_vec());
    sym::check(same(format!("{}", h).as_bytes(), &print(&b, false)), "Display prints something else");
    let mut want = b"HexString(\"".to_vec();
    want.extend_from_slice(&print(&b, false));
    want.extend_from_slice(b"\")");
    sym::check(same(format!("{:?}", h).as_bytes(), &want), "Debug prints something else");
    sym::check(same(format!("{:x}", FixedBytes::<2>::from_array(b)).as_bytes(), &print(&b, false)), "fixed bytes print differently");
}
/// a width, fill or precision lays out the digits like any other text
fn layout() {
    let b = [sym::bytes::<1>()[0], 0x0f];
    let b = &b[..1 + sym::upto(1)];
    let h = HexString::from_vec(b.to_vec());
    let t = unsafe { String::from_utf8_unchecked(print(b, false)) };
    macro_rules! each { ($($f:literal),+) => { [$(|h: &HexString, t: &String| (format!($f, h), format!($f, t))),+] } }
    let all: &[fn(&HexString, &String) -> (String, String)] = &each!("{:>6}", "{:<5}|", "{:.3}", "{:*^7}", "{:06}", "{:#}");
    let (x, y) = all[sym::upto(all.len() - 1)](&h, &t);
    sym::check(same(x.as_bytes(), y.as_bytes()), "the digits are laid out differently");
}
/// bytes in, the same bytes held, whatever they come in
fn held(max: usize) {
    let b = sym::vec(sym::upto(max));
    let h = match sym::upto(10) {
        0 => HexString::from_vec(b.clone()),
        1 => HexString::from(b.clone()),
        2 => HexString::from(&b[..]),
        3 => HexString::from(b.clone().into_boxed_slice()),
        4 => HexString::from(Rc::<[u8]>::from(&b[..])),
        5 => HexString::from(Arc::<[u8]>::from(&b[..])),
        6 => HexString::from(Cow::Borrowed(&b[..])),
        7 => HexString::from_bytes(&b[..]),
        8 => HexString::clone_from_bytes(&b),
        9 => b.iter().collect(),
        _ => {
            let k = sym::upto(b.len());
            let mut h = HexString::new();
            h.extend(b[..k].iter().copied());
            h.extend(&b[k..]);
            h
        }
    };
    sym::check(h.len() == b.len() && h.is_empty() == b.is_empty(), "the number of bytes differs");
    match sym::upto(5) {
        0 => sym::check(same(h.as_bytes(), &b), "other bytes are held"),
        1 => sym::check(same(h.as_ref(), &b), "other bytes are held"),
        2 => sym::check(same(&h.into_inner(), &b), "other bytes are held"),
        3 => {
            let v: Vec<u8> = h.into();
            sym::check(same(&v, &b), "other bytes are held")
        }
        4 => {
            let v: Vec<u8> = h.into_iter().collect();
            sym::check(same(&v, &b), "other bytes are held")
        }
        _ => {
            let mut v = Vec::new();
            for x in &h {
                v.push(*x);
            }
            sym::check(same(&v, &b) && same(h.as_vec(), &b), "other bytes are held")
        }
    }
}
fn arrays() {
    let b = sym::bytes::<3>();
    let h = match sym::upto(5) {
        0 => HexString::from(b),
        1 => HexString::from(&b),
        2 => HexString::from(Box::new(b)),
        3 => HexString::from(Rc::new(b)),
        4 => HexString::from(Arc::new(b)),
        _ => HexString::from(Cow::Borrowed(&b)),
    };
    sym::check(same(h.as_bytes(), &b), "other bytes are held");
}
fn macros() {
    let s = text(4, true);
    let r = reference(s.as_bytes());
    sym::panic_ok(r.is_err());
    let h = hex!(&s);
    sym::check(r.is_ok(), "hex! accepted text that is not hexadecimal");
    if let Ok(b) = r {
        sym::check(same(h.as_bytes(), &b), "hex! read other bytes");
    }
}
/// decoding from hexadecimal text is decoding from its bytes
fn decoded() {
    let b = sym::bytes::<4>();
    let t = unsafe { String::from_utf8_unchecked(print(&b, sym::bool())) };
    match sym::upto(2) {
        0 => sym::check(u32::decode(hex!(&t)) as u64 == be(&b), "a number decoded from hexadecimal text differs"),
        1 => sym::check(same(&Bytes::decode(HexString::from_hex(&t).unwrap()), &b), "bytes decoded from hexadecimal text differ"),
        _ => sym::check(same(FixedBytes::<4>::decode_memo(hex!(&t)).bytes(), &b), "bytes decoded from hexadecimal text differ"),
    }
}
/// long text: digits of either case, one character of which may be anything
fn far() {
    want!("accepted", "odd", "bad digit");
    let n = wide();
    let mut v = Vec::with_capacity(2 * n + 1);
    for i in 0..2 * n {
        v.push(b"0123456789abcdefABCDEF"[(i * 7 + i / 22) % 22]);
    }
    match sym::upto(6) {
        0 => v[0] = sym::u8() & 0x7f,
        1 => v[n] = sym::u8() & 0x7f,
        2 => v[2 * n - 1] = sym::u8() & 0x7f,
        3 => v.push(sym::u8() & 0x7f),
        4 => v.push(b'0'),
        5 => {
            let l = v.len();
            v[l - 2..].copy_from_slice(match sym::upto(4) { 0 => b"\r\n", 1 => b"  ", 2 => b"==", 3 => b"\0\0", _ => b"\n\n" })
        }
        _ => v[..2].copy_from_slice(match sym::upto(4) { 0 => b"0x", 1 => b"0X", 2 => b"  ", 3 => b"\\x", _ => b"#0" }),
    }
    let s = unsafe { String::from_utf8_unchecked(v) };
    verdict(HexString::from_hex(&s), &s)
}
/// many bytes print and read back
fn far_round() {
    let n = match sym::upto(6) { 0 => 9, 1 => 17, 2 => 33, 3 => 65, 4 => 300, 5 => 1025, _ => 8193 };
    let mut b = Vec::with_capacity(n);
    for i in 0..n {
        b.push((i * 37 + i / 256 + 11) as u8);
    }
    let at = edge(n - 1);
    b[at] = sym::u8();
    let h = HexString::from_vec(b.clone());
    let t = h.to_hex();
    sym::check(same(t.as_bytes(), &print(&b, false)), "bytes are not printed as pairs of lower-case digits");
    match HexString::from_hex(&t) {
        Ok(x) => sym::check(same(x.as_bytes(), &b), "printed text does not read back"),
        Err(_) => sym::check(false, "printed text does not read back"),
    }
    let f = StrictBuilder::from(b.clone()).into_hex();
    sym::check(same(f.as_bytes(), t.as_bytes()), "a builder prints differently");
}
fn far_formatted() {
    let n = match sym::upto(4) { 0 => 9, 1 => 17, 2 => 40, 3 => 300, _ => 8192 };
    let mut b = Vec::with_capacity(n);
    for i in 0..n {
        b.push((i * 37 + 11) as u8);
    }
    b[n - 1] = sym::u8();
    let h = HexString::from_vec(b.clone());
    sym::check(same(format!("{}", h).as_bytes(), &print(&b, false)), "Display prints something else");
    let mut want = b"HexString(\"".to_vec();
    want.extend_from_slice(&print(&b, false));
    want.extend_from_slice(b"\")");
    sym::check(same(format!("{:?}", h).as_bytes(), &want), "Debug prints something else");
}
fn far_formatted_fixed<const K: usize>() {
    let mut b = [0u8; K];
    for i in 0..K {
        b[i] = (i * 37 + 11) as u8;
    }
    b[K - 1] = sym::u8();
    sym::check(same(format!("{:x}", FixedBytes::<K>::from_array(b)).as_bytes(), &print(&b, false)), "the hexadecimal form prints something else");
}
fn far_held() {
    let b = ends(long());
    let h = match sym::upto(9) {
        0 => HexString::from(b.clone()),
        6 => HexString::from(b.clone().into_boxed_slice()),
        7 => HexString::from(std::rc::Rc::<[u8]>::from(&b[..])),
        8 => HexString::from(std::sync::Arc::<[u8]>::from(&b[..])),
        9 => HexString::from(if sym::upto(1) == 0 { Cow::Borrowed(&b[..]) } else { Cow::Owned(b.clone()) }),
        1 => HexString::from(&b[..]),
        2 => HexString::from_bytes(&b[..]),
        3 => HexString::clone_from_bytes(&b),
        4 => b.iter().collect(),
        _ => {
            let k = b.len() / 2;
            let mut h = HexString::new();
            h.extend(b[..k].iter().copied());
            h.extend(&b[k..]);
            h
        }
    };
    sym::check(h.len() == b.len() && !h.is_empty(), "the number of bytes differs");
    if sym::upto(1) == 0 {
        sym::check(same(h.as_bytes(), &b), "other bytes are held")
    } else {
        let v: Vec<u8> = h.into_iter().collect();
        sym::check(same(&v, &b), "other bytes are held")
    }
}
harnesses! {
    fn p19_read_ascii() { read(5, true) }
    fn p19_read() { read(3, false) }
    fn p19_every() { every(3) }
    fn p19_round() { round(3) }
    fn p19_formatted() { formatted() }
    fn p19_layout() { layout() }
    fn p19_held() { held(3) }
    fn p19_arrays() { arrays() }
    fn p19_macro() { macros() }
    fn p19_decoded() { decoded() }
    fn p19_read__rel() { read(3, false) }
    fn p19_read_ascii__rel() { read(4, true) }
    fn p19_read_ascii__imh() { read(4, true) }
    fn p19_round__rel() { round(2) }
    fn p19t_read_ascii() { read(8, true) }
    fn p19t_read() { read(4, false) }
    fn p19t_round() { round(6) }
    fn p19_far() { far() }
    fn p19_far_round() { far_round() }
    fn p19_far_formatted() { far_formatted() }
    fn p19_far_formatted65() { far_formatted_fixed::<65>() }
    fn p19_far_formatted300() { far_formatted_fixed::<300>() }
    fn p19_far_held() { far_held() }
    fn p19_far__rel() { far() }
    fn p19_far__imh() { far() }
}
