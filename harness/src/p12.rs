//! Natural numbers: little-endian 7-bit groups, continuation bit on all but the last, no superfluous group.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::BigUint;
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

fn groups(bits: usize) -> usize {
    if bits == 0 { 1 } else { (bits + 6) / 7 }
}
/// a number of exactly `bits` significant bits
fn exactly(bits: usize) -> u128 {
    if bits == 0 {
        return 0;
    }
    let lo = if bits <= 64 { sym::u64() as u128 } else { (sym::u64() as u128) << 64 | sym::u64() as u128 };
    let top = 1u128 << (bits - 1);
    top | (lo & (top - 1))
}
fn value(n: &N) -> u128 {
    let d = n.0.to_u32_digits();
    let mut v = 0u128;
    for i in 0..d.len() {
        if i < 4 {
            v |= (d[i] as u128) << (32 * i);
        } else {
            sym::check(false, "more digits than expected");
        }
    }
    v
}
fn encodes(bits: usize) {
    let v = exactly(bits);
    let n = N(BigUint::from(v));
    let e = enc(&n);
    let g = groups(bits);
    sym::check(e.len() == g, "not the shortest encoding");
    sym::check(n.estimate() == g && n.enc_len() == g, "the estimate is not the encoded length");
    if e.len() == g {
        let mut ok = true;
        for i in 0..g {
            let more = if i + 1 < g { 0x80u8 } else { 0 };
            ok &= e[i] == ((v >> (7 * i)) as u8 & 0x7f | more);
        }
        sym::check(ok, "the groups are not the number's, little-endian with continuation bits");
    }
    let all = with_tail(&e, 1);
    let (r, left) = parse1::<N>(&all);
    sym::check(left == 1, "decoding did not stop after the last group");
    match r {
        Ok(m) => {
            sym::check(value(&m) == v, "the number did not survive");
            sym::check(m == n, "the number did not survive");
        }
        Err(_) => sym::check(false, "an encoded number was refused"),
    }
}
/// any bytes: decoding takes the groups up to the first without continuation bit
fn decodes(len: usize) {
    want!("decoded", "refused");
    let b = sym::vec(len);
    let mut end = None;
    for i in 0..len {
        if end.is_none() && b[i] & 0x80 == 0 {
            end = Some(i + 1);
        }
    }
    let (r, left) = parse::<N>(&b);
    match (r, end) {
        (Ok(n), Some(e)) => {
            sym::cover("decoded");
            sym::check(left == len - e, "decoding did not stop after the last group");
            let mut v = 0u128;
            for i in 0..e {
                v |= ((b[i] & 0x7f) as u128) << (7 * i);
            }
            sym::check(value(&n) == v, "the decoded number is not the groups'");
        }
        (Err(_), None) => sym::cover("refused"),
        (Ok(_), None) => sym::check(false, "an unterminated number was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a terminated number was refused"),
    }
}
/// numbers of any size, digit by digit
fn digits(bits: usize) -> Vec<u32> {
    let k = (bits + 31) / 32;
    let mut d = Vec::with_capacity(k);
    for _ in 0..k {
        d.push(sym::u32());
    }
    let top = 1u32 << ((bits - 1) % 32);
    d[k - 1] = top | (d[k - 1] & (top - 1));
    d
}
/// `n` bits from bit `at`
fn bits_at(d: &[u32], at: usize, n: usize) -> u8 {
    let mut v = 0u64;
    let w = at / 32;
    if w < d.len() {
        v |= d[w] as u64;
    }
    if w + 1 < d.len() {
        v |= (d[w + 1] as u64) << 32;
    }
    (v >> (at % 32)) as u8 & ((1u16 << n) - 1) as u8
}
fn big(bits: usize) {
    let d = digits(bits);
    let n = N(BigUint::new(d.clone()));
    let e = enc(&n);
    let g = groups(bits);
    sym::check(e.len() == g && n.estimate() == g, "not the shortest encoding, or misjudged");
    if e.len() == g {
        let mut ok = true;
        for i in 0..g {
            let more = if i + 1 < g { 0x80u8 } else { 0 };
            ok &= e[i] == bits_at(&d, 7 * i, 7) | more;
        }
        sym::check(ok, "the groups are not the number's, little-endian with continuation bits");
    }
    let (r, left) = parse1::<N>(&e);
    sym::check(left == 0, "decoding did not stop after the last group");
    match r {
        Ok(m) => {
            let x = m.0.to_u32_digits();
            let mut ok = x.len() == d.len();
            if ok {
                for i in 0..d.len() {
                    ok &= x[i] == d[i];
                }
            }
            sym::check(ok, "the number did not survive")
        }
        Err(_) => sym::check(false, "an encoded number was refused"),
    }
}
fn far_len() -> usize {
    match sym::upto(6) { 0 => 18, 1 => 19, 2 => 20, 3 => 33, 4 => 64, 5 => 147, _ => 300 }
}
/// many groups, a few of them free
fn far_decodes() {
    want!("decoded", "refused");
    let n = far_len();
    let mut b = Vec::with_capacity(n + 1);
    for i in 0..n {
        b.push(0x80 | if i == 0 || i == n / 2 || i + 2 == n { sym::u8() } else { (i * 37 + 11) as u8 });
    }
    b[n - 1] = sym::u8();
    b.push(sym::u8());
    if sym::upto(1) == 0 {
        b.pop();
    }
    let stop = if sym::split((b[n - 1] & 0x80 == 0) as usize) == 1 { Some(n) } else if b.len() > n && sym::split((b[n] & 0x80 == 0) as usize) == 1 { Some(n + 1) } else { None };
    let (r, left) = parse::<N>(&b);
    match (r, stop) {
        (Ok(x), Some(e)) => {
            sym::cover("decoded");
            sym::check(left == b.len() - e, "decoding did not stop after the last group");
            let d = x.0.to_u32_digits();
            let mut ok = true;
            for i in 0..e {
                ok &= bits_at(&d, 7 * i, 7) == b[i] & 0x7f;
            }
            sym::check(ok && d.len() * 32 <= 7 * e + 31, "the decoded number is not the groups'");
        }
        (Err(_), None) => sym::cover("refused"),
        (Ok(_), None) => sym::check(false, "an unterminated number was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a terminated number was refused"),
    }
}
/// however long, groups that all ask for more are no number
fn endless() {
    want!("refused");
    let n = long();
    let mut b = vec![0x80u8; n];
    b[n - 1] = sym::u8() | 0x80;
    b[n / 2] = sym::u8() | 0x80;
    let (r, _) = parse::<N>(&b);
    sym::check(r.is_err(), "an unterminated number was accepted");
    sym::cover("refused");
}
harnesses! {
    fn p12_endless() { endless() }
    fn p12_encode_short() { encodes(sym::upto(29)) }
    fn p12_encode_mid() { encodes(sym::between(30, 58)) }
    fn p12_encode_long() { encodes(sym::between(59, 71)) }
    fn p12_decode() { let n = sym::between(1, 6); decodes(n) }
    fn p12_decode_9() { decodes(9) }
    fn p12_decode_10() { decodes(10) }
    fn p12_decode__rel() { let n = sym::between(1, 4); decodes(n) }
    fn p12_encode__rel() { encodes(sym::upto(20)) }
    fn p12_empty() { let (r, _) = parse::<N>(&[]); sym::check(r.is_err(), "a number was decoded from nothing"); }
    fn p12_encode_wide() { encodes(sym::between(72, 127)) }
    fn p12_decode_long() { let n = sym::between(7, 17); decodes(n) }
    fn p12_big_128() { big(sym::between(128, 150)) }
    fn p12_big_192() { big(sym::between(190, 200)) }
    fn p12_big_256() { big(sym::between(250, 255)) }
    fn p12_big_448() { big(440 + sym::upto(20)) }
    fn p12_big_1024() { big(1018 + sym::upto(8)) }
    fn p12t_big() { big(150 + sym::upto(250)) }
    fn p12_far_decode() { far_decodes() }
}
