//! Integers: sign bit and six bits in the first byte, then 7-bit groups like natural numbers.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::{BigInt, BigUint, Sign};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

fn groups(bits: usize) -> usize {
    if bits <= 6 { 1 } else { 1 + (bits - 6 + 6) / 7 }
}
fn exactly(bits: usize) -> u128 {
    if bits == 0 {
        return 0;
    }
    let lo = if bits <= 64 { sym::u64() as u128 } else { (sym::u64() as u128) << 64 | sym::u64() as u128 };
    let top = 1u128 << (bits - 1);
    top | (lo & (top - 1))
}
/// sign and magnitude
fn value(z: &Z) -> (bool, u128) {
    let (s, d) = z.0.to_u32_digits();
    let mut v = 0u128;
    for i in 0..d.len() {
        if i < 4 {
            v |= (d[i] as u128) << (32 * i);
        } else {
            sym::check(false, "more digits than expected");
        }
    }
    sym::check((s == Sign::NoSign) == (v == 0), "sign and magnitude disagree");
    (s == Sign::Minus, v)
}
fn group(b: &[u8]) -> u128 {
    let mut v = (b[0] & 0x3f) as u128;
    for i in 1..b.len() {
        v |= ((b[i] & 0x7f) as u128) << (7 * i - 1);
    }
    v
}
fn encodes(bits: usize, neg: bool) {
    let v = exactly(bits);
    let z = Z(BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, BigUint::from(v)));
    let neg = neg && v != 0;
    let e = enc(&z);
    let g = groups(bits);
    sym::check(e.len() == g, "not the shortest encoding");
    sym::check(z.estimate() == g && z.enc_len() == g, "the estimate is not the encoded length");
    if e.len() == g {
        let mut cont = true;
        for i in 0..g {
            cont &= (e[i] & 0x80 != 0) == (i + 1 < g);
        }
        sym::check(cont, "continuation bits are wrong");
        sym::check((e[0] & 0x40 != 0) == neg, "the sign bit is wrong");
        sym::check(group(&e) == v, "the groups are not the magnitude's");
    }
    let all = with_tail(&e, 1);
    let (r, left) = parse1::<Z>(&all);
    sym::check(left == 1, "decoding did not stop after the last group");
    match r {
        Ok(m) => {
            sym::check(value(&m) == (neg, v), "the number did not survive");
            sym::check(m == z, "the number did not survive");
        }
        Err(_) => sym::check(false, "an encoded number was refused"),
    }
}
fn decodes(len: usize) {
    want!("decoded", "refused", "minus", "plus");
    let b = sym::vec(len);
    let mut end = None;
    for i in 0..len {
        if end.is_none() && b[i] & 0x80 == 0 {
            end = Some(i + 1);
        }
    }
    let (r, left) = parse::<Z>(&b);
    match (r, end) {
        (Ok(z), Some(e)) => {
            sym::cover("decoded");
            sym::check(left == len - e, "decoding did not stop after the last group");
            let v = group(&b[..e]);
            let (neg, m) = value(&z);
            sym::check(m == v, "the decoded magnitude is not the groups'");
            sym::check(neg == (b[0] & 0x40 != 0 && v != 0), "the decoded sign is not the sign bit");
            sym::cover(if neg { "minus" } else { "plus" });
        }
        (Err(_), None) => sym::cover("refused"),
        (Ok(_), None) => sym::check(false, "an unterminated number was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a terminated number was refused"),
    }
}
/// numbers of any size, digit by digit
fn digits(bits: usize) -> Vec<u32> {
    let k = (bits + 31) / 32;
    let mut d = Vec::with_capacity(k);
    for _ in 0..k {
        d.push(sym::u32());
    }
    let top = 1u32 << ((bits - 1) % 32);
    d[k - 1] = top | (d[k - 1] & (top - 1));
    d
}
/// `n` bits from bit `at`
fn bits_at(d: &[u32], at: usize, n: usize) -> u8 {
    let mut v = 0u64;
    let w = at / 32;
    if w < d.len() {
        v |= d[w] as u64;
    }
    if w + 1 < d.len() {
        v |= (d[w + 1] as u64) << 32;
    }
    (v >> (at % 32)) as u8 & ((1u16 << n) - 1) as u8
}
fn big(bits: usize, neg: bool) {
    let d = digits(bits);
    let z = Z(BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, BigUint::new(d.clone())));
    let e = enc(&z);
    let g = groups(bits);
    sym::check(e.len() == g && z.estimate() == g, "not the shortest encoding, or misjudged");
    if e.len() == g {
        let mut ok = true;
        for i in 0..g {
            let more = if i + 1 < g { 0x80u8 } else { 0 };
            let sign = if i == 0 && neg { 0x40u8 } else { 0 };
            ok &= e[i] == if i == 0 { bits_at(&d, 0, 6) | sign | more } else { bits_at(&d, 7 * i - 1, 7) | more };
        }
        sym::check(ok, "the groups are not the number's");
    }
    let (r, left) = parse1::<Z>(&e);
    sym::check(left == 0, "decoding did not stop after the last group");
    match r {
        Ok(m) => {
            let (s, x) = m.0.to_u32_digits();
            let mut ok = x.len() == d.len() && (s == Sign::Minus) == neg;
            if ok {
                for i in 0..d.len() {
                    ok &= x[i] == d[i];
                }
            }
            sym::check(ok, "the number did not survive")
        }
        Err(_) => sym::check(false, "an encoded number was refused"),
    }
}
fn far_len() -> usize {
    match sym::upto(6) { 0 => 18, 1 => 19, 2 => 20, 3 => 33, 4 => 64, 5 => 147, _ => 300 }
}
/// many groups, a few of them free
fn far_decodes() {
    want!("decoded", "refused", "minus", "plus");
    let n = far_len();
    let mut b = Vec::with_capacity(n + 1);
    for i in 0..n {
        b.push(0x80 | if i == 0 || i == n / 2 || i + 2 == n { sym::u8() } else { (i * 37 + 11) as u8 });
    }
    b[n - 1] = sym::u8();
    b.push(sym::u8());
    if sym::upto(1) == 0 {
        b.pop();
    }
    let stop = if sym::split((b[n - 1] & 0x80 == 0) as usize) == 1 { Some(n) } else if b.len() > n && sym::split((b[n] & 0x80 == 0) as usize) == 1 { Some(n + 1) } else { None };
    let (r, left) = parse::<Z>(&b);
    match (r, stop) {
        (Ok(x), Some(e)) => {
            sym::cover("decoded");
            sym::check(left == b.len() - e, "decoding did not stop after the last group");
            let (s, d) = x.0.to_u32_digits();
            let mut ok = bits_at(&d, 0, 6) == b[0] & 0x3f;
            for i in 1..e {
                ok &= bits_at(&d, 7 * i - 1, 7) == b[i] & 0x7f;
            }
            sym::check(ok && d.len() * 32 <= 7 * e + 30, "the decoded magnitude is not the groups'");
            sym::check((s == Sign::Minus) == (b[0] & 0x40 != 0), "the decoded sign is not the sign bit");
            match sym::split((s == Sign::Minus) as usize) {
                0 => sym::cover("plus"),
                _ => sym::cover("minus"),
            }
        }
        (Err(_), None) => sym::cover("refused"),
        (Ok(_), None) => sym::check(false, "an unterminated number was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a terminated number was refused"),
    }
}
/// however long, groups that all ask for more are no number
fn endless() {
    want!("refused");
    let n = long();
    let mut b = vec![0x80u8; n];
    b[n - 1] = sym::u8() | 0x80;
    b[n / 2] = sym::u8() | 0x80;
    let (r, _) = parse::<Z>(&b);
    sym::check(r.is_err(), "an unterminated number was accepted");
    sym::cover("refused");
}
harnesses! {
    fn p13_endless() { endless() }
    fn p13_encode_short() { encodes(sym::upto(28), sym::split(sym::upto(1)) == 1) }
    fn p13_encode_mid() { encodes(sym::between(29, 57), sym::split(sym::upto(1)) == 1) }
    fn p13_encode_long() { encodes(sym::between(58, 71), sym::split(sym::upto(1)) == 1) }
    fn p13_decode() { let n = sym::between(1, 6); decodes(n) }
    fn p13_decode_9() { decodes(9) }
    fn p13_decode_10() { decodes(10) }
    fn p13_decode__rel() { let n = sym::between(1, 4); decodes(n) }
    fn p13_encode__rel() { encodes(sym::upto(20), sym::split(sym::upto(1)) == 1) }
    fn p13_empty() { let (r, _) = parse::<Z>(&[]); sym::check(r.is_err(), "a number was decoded from nothing"); }
    fn p13_encode_wide() { encodes(sym::between(72, 127), sym::split(sym::upto(1)) == 1) }
    fn p13_decode_long() { let n = sym::between(7, 17); decodes(n) }
    fn p13_big_128() { big(sym::between(128, 150), sym::split(sym::upto(1)) == 1) }
    fn p13_big_192() { big(sym::between(190, 200), sym::split(sym::upto(1)) == 1) }
    fn p13_big_256() { big(sym::between(250, 255), sym::split(sym::upto(1)) == 1) }
    fn p13_big_448() { big(440 + sym::upto(20), sym::split(sym::upto(1)) == 1) }
    fn p13_big_1024() { big(1018 + sym::upto(8), sym::split(sym::upto(1)) == 1) }
    fn p13t_big() { big(150 + sym::upto(250), sym::split(sym::upto(1)) == 1) }
    fn p13_far_decode() { far_decodes() }
}
