//! Fixed-width byte strings and strings: exactly N bytes, unchanged, whichever way they come.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::borrow::Borrow;
use std::convert::{TryFrom, TryInto};
use std::str::FromStr;
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

fn decodes<const K: usize>(extra: usize) {
    want!("decoded");
    if K > 0 {
        want!("too short");
    }
    let b = sym::vec(sym::upto(K + extra));
    let (r, left) = parse::<FixedBytes<K>>(&b);
    match r {
        Ok(x) => {
            sym::cover("decoded");
            sym::check(b.len() >= K, "decoded from too few bytes");
            sym::check(left == b.len() - K && same(x.bytes(), &b[..K]), "not exactly the next N bytes");
            sym::check(same(&enc(&x), &b[..K]), "re-encoding differs from the bytes decoded");
        }
        Err(_) => {
            sym::cover("too short");
            sym::check(b.len() < K, "refused an input of sufficient length")
        }
    }
    sym::check(<FixedBytes<K> as FixedLength>::LEN == K && <FixedString<K> as FixedLength>::LEN == K, "the declared width is not N");
}
fn string_decodes<const K: usize>(extra: usize, text: bool) {
    let b = sym::vec(sym::upto(K + extra));
    let (r, left) = parse::<FixedString<K>>(&b);
    match r {
        Ok(x) => {
            sym::check(b.len() >= K, "a string was decoded from too few bytes");
            sym::check(left == b.len() - K && same(&enc(&x), &b[..K]), "a string is not exactly the next N bytes");
            if text {
                sym::check(x.is_valid_utf8() == std::str::from_utf8(&b[..K]).is_ok(), "text validity is reported wrongly");
            }
        }
        Err(_) => sym::check(b.len() < K, "a string was refused although its bytes are there"),
    }
}
/// made in any way from any bytes
fn made<const K: usize>(extra: usize) {
    want!("made", "refused");
    let b = sym::vec(sym::upto(K + extra));
    let fits = b.len() == K;
    let r: Option<FixedBytes<K>> = match sym::upto(5) {
        0 => FixedBytes::try_from_slice(&b).ok(),
        1 => FixedBytes::try_from(&b[..]).ok(),
        k => {
            let a: [u8; K] = match b[..].try_into() {
                Ok(a) => a,
                Err(_) => return sym::cover("refused"),
            };
            Some(match k {
                2 => FixedBytes::from_array(a),
                3 => FixedBytes::from_array_ref(&a),
                4 => FixedBytes::from(a),
                _ => FixedBytes::from(&a),
            })
        }
    };
    match r {
        None => {
            sym::cover("refused");
            sym::check(!fits, "bytes of the right number were refused");
        }
        Some(mut x) => {
            sym::cover("made");
            sym::check(fits, "bytes of the wrong number were accepted");
            let ok = match sym::upto(10) {
                0 => same(x.bytes(), &b),
                1 => same(&x.to_array(), &b),
                2 => same(&x.to_vec(), &b),
                3 => same(&Vec::from(x), &b),
                4 => same(&<[u8; K]>::from(x), &b),
                5 => same(AsRef::<[u8]>::as_ref(&x), &b) && same(AsRef::<[u8; K]>::as_ref(&x), &b),
                6 => same(Borrow::<[u8]>::borrow(&x), &b) && same(Borrow::<[u8; K]>::borrow(&x), &b),
                7 => same(x.bytes_mut(), &b),
                8 => same(&enc(&x), &b) && same(&x.to_bytes(), &b) && same(&x.encode::<Vec<u8>>(), &b) && x.len() == K,
                9 => {
                    let mut v = vec![7u8];
                    x.write_to_vec(&mut v);
                    v.len() == K + 1 && v[0] == 7 && same(&v[1..], &b)
                }
                _ => x.enc_len() == K && x.estimate() == K && <FixedBytes<K> as Estimable>::KNOWN == Some(K),
            };
            sym::check(ok, "the bytes held are not the bytes given");
        }
    }
}
fn string_made<const K: usize>(extra: usize) {
    want!("made", "refused");
    // any text of up to K + extra characters of one to three bytes
    let n = sym::upto(K + extra);
    let mut s = String::new();
    for _ in 0..n {
        s.push(match sym::upto(2) {
            0 => (sym::u8() & 0x7f) as char,
            1 => '\u{e9}',
            _ => '\u{20ac}',
        });
    }
    let b = s.as_bytes().to_vec();
    let fits = b.len() == K;
    let r = match sym::upto(4) {
        0 => FixedString::<K>::from_str(&s).ok(),
        1 => FixedString::<K>::try_from(&s[..]).ok(),
        2 => FixedString::<K>::try_from(s.clone()).ok(),
        3 => FixedString::<K>::try_from(&b[..]).ok(),
        _ => FixedString::<K>::try_from_bytes(&b).ok(),
    };
    match r {
        None => {
            sym::cover("refused");
            sym::check(!fits, "text of the right size was refused");
        }
        Some(x) => {
            sym::cover("made");
            sym::check(fits, "text of the wrong size was accepted");
            sym::check(same(&enc(&x), &b) && same(&x.to_bytes(), &b) && x.len() == K && x.enc_len() == K && x.estimate() == K, "the bytes held are not the text's");
            sym::check(x.is_valid_utf8(), "valid text is reported as invalid");
            sym::check(same(x.as_string_lossy().as_bytes(), &b), "the text read back is another");
            sym::check(same(unsafe { x.as_str_unchecked() }.as_bytes(), &b), "the text read back is another");
        }
    }
}
/// arrays of arbitrary bytes, not necessarily text
fn string_array() {
    want!("text", "not text");
    let a = sym::bytes::<3>();
    let ok = std::str::from_utf8(&a).is_ok();
    let r = FixedString::<3>::try_from_array(&a);
    sym::check(r.is_ok() == ok, "arrays are not accepted exactly when they are text");
    sym::cover(if ok { "text" } else { "not text" });
    for x in [FixedString::<3>::from(a), FixedString::<3>::from(&a), unsafe { FixedString::<3>::from_array_unchecked(&a) }] {
        sym::check(same(&enc(&x), &a), "the bytes held are not the bytes given");
        sym::check(x.is_valid_utf8() == ok, "text validity is reported wrongly");
    }
}
fn hexadecimal() {
    let a = sym::bytes::<2>();
    let s = format!("{:x}", FixedBytes::from_array(a));
    let d = |n: u8| if n < 10 { b'0' + n } else { b'a' + (n - 10) };
    sym::check(same(s.as_bytes(), &[d(a[0] >> 4), d(a[0] & 15), d(a[1] >> 4), d(a[1] & 15)]), "the hexadecimal form is not two lower-case digits per byte");
}
/// comparison is comparison of the bytes
fn order() {
    let (a, b) = (sym::bytes::<2>(), sym::bytes::<2>());
    let (x, y) = (FixedBytes::from_array(a), FixedBytes::from_array(b));
    let (m, n) = (be(&a), be(&b));
    sym::check((x == y) == (m == n) && (x < y) == (m < n), "comparison is not comparison of the bytes");
    let (x, y) = (FixedString::from(a), FixedString::from(b));
    sym::check((x == y) == (m == n) && (x < y) == (m < n), "comparison is not comparison of the bytes");
    let z = FixedBytes::<5>::default();
    sym::check(same(z.bytes(), &[0; 5]), "the default is not all zero");
}
fn far_decodes<const K: usize>() {
    want!("decoded", "too short");
    let b = ends(match sym::upto(4) { 0 => K / 2, 1 => K - 1, 2 => K, 3 => K + 1, _ => K + 256 });
    let (ok, left, raw) = if sym::upto(1) == 0 {
        let (r, left) = parse::<FixedBytes<K>>(&b);
        (r.is_ok(), left, r.map(|x| enc(&x)).unwrap_or_default())
    } else {
        let (r, left) = parse::<FixedString<K>>(&b);
        (r.is_ok(), left, r.map(|x| enc(&x)).unwrap_or_default())
    };
    sym::cover(if ok { "decoded" } else { "too short" });
    sym::check(ok == (b.len() >= K), "decoding succeeds exactly when the bytes are there");
    if ok {
        sym::check(left == b.len() - K && same(&raw, &b[..K]), "not exactly the next N bytes");
    }
}
fn far_made<const K: usize>() {
    want!("made", "refused");
    let b = ends(match sym::upto(3) { 0 => K - 1, 1 => K, 2 => K + 1, _ => K + 256 });
    let r = if sym::upto(1) == 0 { FixedBytes::<K>::try_from_slice(&b).ok() } else { FixedBytes::<K>::try_from(&b[..]).ok() };
    sym::check(r.is_some() == (b.len() == K), "made from bytes of another number, or not made");
    match r {
        Some(x) => {
            sym::cover("made");
            sym::check(same(x.bytes(), &b) && same(&x.to_array(), &b) && same(&x.to_vec(), &b) && same(&enc(&x), &b) && x.enc_len() == K, "the bytes held are not the bytes given");
            let y = FixedBytes::<K>::from_array(x.to_array());
            sym::check(x == y, "equal bytes differ");
            let mut z = x.to_array();
            let i = edge(K - 1);
            z[i] ^= 1 << 4;
            let z = FixedBytes::<K>::from_array(z);
            sym::check(x != z && (x < z) == (b[i] & 16 == 0), "comparison is not comparison of the bytes");
        }
        None => sym::cover("refused"),
    }
}
fn far_string<const K: usize>() {
    let mut s = String::new();
    for i in 0..K - 2 {
        s.push((b'a' + (i % 26) as u8) as char);
    }
    s.push('\u{e9}');
    let x = FixedString::<K>::from_str(&s);
    sym::check(matches!(&x, Ok(x) if same(&enc(x), s.as_bytes()) && x.is_valid_utf8() && same(x.as_string_lossy().as_bytes(), s.as_bytes())), "text of the right size was refused or altered");
    s.push('!');
    sym::check(FixedString::<K>::from_str(&s).is_err(), "text of the wrong size was accepted");
}
harnesses! {
    fn p27_decode0() { decodes::<0>(2) }
    fn p27_decode1() { decodes::<1>(2) }
    fn p27_decode4() { decodes::<4>(2) }
    fn p27_decode32() { decodes::<32>(1) }
    fn p27_string_decode0() { string_decodes::<0>(1, true) }
    fn p27_string_decode3() { string_decodes::<3>(1, true) }
    fn p27_string_decode20() { string_decodes::<20>(1, false) }
    fn p27_made0() { made::<0>(2) }
    fn p27_made1() { made::<1>(2) }
    fn p27_made4() { made::<4>(2) }
    fn p27_made20() { made::<20>(2) }
    fn p27_string0() { string_made::<0>(1) }
    fn p27_string3() { string_made::<3>(1) }
    fn p27_string4() { string_made::<4>(1) }
    fn p27_array() { string_array() }
    fn p27_hex() { hexadecimal() }
    fn p27_order() { order() }
    fn p27_decode4__rel() { decodes::<4>(2) }
    fn p27_made4__rel() { made::<4>(2) }
    fn p27t_decode64() { decodes::<64>(1) }
    fn p27t_string8() { string_made::<6>(1) }
    fn p27_far_decode20() { far_decodes::<20>() }
    fn p27_far_decode64() { far_decodes::<64>() }
    fn p27_far_decode256() { far_decodes::<256>() }
    fn p27_far_decode300() { far_decodes::<300>() }
    fn p27_far_made33() { far_made::<33>() }
    fn p27_far_made256() { far_made::<256>() }
    fn p27_far_made300() { far_made::<300>() }
    fn p27_far_string17() { far_string::<17>() }
    fn p27_far_string65() { far_string::<65>() }
}
