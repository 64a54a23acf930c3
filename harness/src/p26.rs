//! Searching an association list: the value of the first matching key, and the position just after it.
use crate::model::Model;
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::parse::ParserExt;
use tedium::*;

fn on<P: Parser + ParserExt, const M: usize, const L: usize>(mut p: P, b: &[u8], wins: usize) {
    let mut m = Model::arbitrary(b, &mut p, wins);
    let key = sym::bytes::<M>();
    // the reference: entry by entry
    let (pos, n) = (m.pos, m.rem());
    let mut hit: Option<usize> = None;
    let mut at = 0;
    let mut torn = false;
    while at < n && hit.is_none() && !torn {
        if n - at < M {
            torn = true;
        } else if sym::split(same(&b[pos + at..pos + at + M], &key) as usize) == 1 {
            if n - at < M + L {
                torn = true;
            } else {
                hit = Some(at);
            }
        } else if n - at < M + L {
            torn = true;
        } else {
            at += M + L;
        }
    }
    let mut calls = 0;
    let r = p.fast_kv_search::<[u8; M], [u8; L], _, M, L>(&key, |v| {
        calls += 1;
        v
    });
    match r {
        Ok(Some(v)) => {
            sym::cover("found");
            sym::check(!torn && calls == 1, "a value was reported where there is none");
            match hit {
                Some(k) => {
                    sym::check(same(&v, &b[pos + k + M..pos + k + M + L]), "the value is not the first matching key's");
                    m.pos += k + M + L;
                    m.drain(&mut p);
                }
                None => sym::check(false, "a value was reported for a key that is not there"),
            }
        }
        Ok(None) => {
            sym::cover("absent");
            sym::check(!torn && hit.is_none(), "a key that is there was not found");
            sym::check(calls == 0, "the conversion ran without a match");
            m.pos += n;
            m.drain(&mut p);
        }
        Err(_) => {
            sym::cover("torn");
            sym::check(torn, "a well-formed list was refused");
        }
    }
}
fn search<const M: usize, const L: usize>(len: usize, wins: usize) {
    want!("found", "absent");
    if M + L > 1 {
        want!("torn");
    }
    let b = sym::vec(sym::upto(len));
    match sym::upto(2) {
        0 => on::<_, M, L>(ByteParser::from_buffer((&b[..]).into()), &b, wins),
        1 => on::<_, M, L>(MemoParser::from_buffer((&b[..]).into()), &b, wins),
        _ => on::<_, M, L>(SliceParser::from_buffer((&b[..]).into()), &b, wins),
    }
}
/// the encoded list, searched without decoding it, agrees with the decoded list
fn list() {
    want!("found", "absent");
    let n = sym::upto(3);
    let mut s: Vec<(u8, u16)> = Vec::new();
    let mut raw: Vec<u8> = vec![(3 * n) as u8];
    for _ in 0..n {
        let (k, v) = (sym::u8(), sym::u16());
        s.push((k, v));
        raw.extend_from_slice(&[k, (v >> 8) as u8, v as u8]);
    }
    let key = sym::u8();
    let mut p = ByteParser::from_buffer((&raw[..]).into());
    sym::check(p.process_prefix::<u8>().is_ok(), "a well-formed prefix was refused");
    let got = p.fast_kv_search::<[u8; 1], u16, _, 1, 2>(&[key], u16::from_be_bytes);
    let mut want = None;
    for i in (0..n).rev() {
        if s[i].0 == key {
            want = Some(s[i].1);
        }
    }
    match (got, want) {
        (Ok(Some(a)), Some(b)) => {
            sym::cover("found");
            sym::check(a == b, "the value is not the first matching key's");
        }
        (Ok(None), None) => {
            sym::cover("absent");
            sym::check(p.enforce_target().is_ok(), "the list was not searched to its end");
        }
        _ => sym::check(false, "searching disagrees with the decoded list"),
    }
}
/// many entries: the key sought may be the first, any of a few, or none of them
fn far<P: Parser + ParserExt>(mut p: P, b: &[u8], n: usize, key: [u8; 2]) {
    let mut hit = None;
    for i in (0..n).rev() {
        if b[3 * i] == key[0] && b[3 * i + 1] == key[1] {
            hit = Some(i);
        }
    }
    let mut calls = 0;
    let r = p.fast_kv_search::<[u8; 2], [u8; 1], _, 2, 1>(&key, |v| {
        calls += 1;
        v
    });
    match (r, hit) {
        (Ok(Some(v)), Some(i)) => {
            sym::cover("found");
            sym::check(v[0] == b[3 * i + 2] && calls == 1, "the value is not the first matching key's");
            sym::check(p.remainder() == 3 * (n - 1 - i), "the position is not just after the entry found");
        }
        (Ok(None), None) => {
            sym::cover("absent");
            sym::check(calls == 0 && p.remainder() == 0, "the list was not searched to its end");
        }
        _ => sym::check(false, "searching disagrees with the entries"),
    }
}
fn far_list() {
    want!("found", "absent");
    let n = match sym::upto(4) { 0 => 9, 1 => 17, 2 => 33, 3 => 65, _ => 300 };
    let mut b = Vec::with_capacity(3 * n);
    let v = sym::u8();
    for i in 0..n {
        // keys repeat after 250 entries
        b.extend_from_slice(&[(i / 250 * 0) as u8, (i % 250) as u8, (i as u8).wrapping_add(v)]);
    }
    let at = match sym::upto(5) { 0 => 0, 1 => 1, 2 => n / 2, 3 => n - 2, 4 => n - 1, _ => n };
    let key = if at == n { [1, 0] } else { [b[3 * at], b[3 * at + 1]] };
    match sym::upto(2) {
        0 => far(ByteParser::from_buffer((&b[..]).into()), &b, n, key),
        1 => far(MemoParser::from_buffer((&b[..]).into()), &b, n, key),
        _ => far(SliceParser::from_buffer((&b[..]).into()), &b, n, key),
    }
}
/// long keys and values
fn far_key<const M: usize, const L: usize>() {
    want!("found", "absent");
    let mut b = Vec::with_capacity(2 * (M + L));
    for i in 0..2 * (M + L) {
        b.push((i % (M + L)) as u8);
    }
    let at = edge(M - 1);
    b[at] = sym::u8();
    let mut key = [0u8; M];
    for i in 0..M {
        key[i] = i as u8;
    }
    key[at] = sym::u8();
    for i in 0..2 {
        b[(M + L) * i + M] = sym::u8();
    }
    match sym::upto(2) {
        0 => on2(ByteParser::from_buffer((&b[..]).into()), &b, key),
        1 => on2(MemoParser::from_buffer((&b[..]).into()), &b, key),
        _ => on2(SliceParser::from_buffer((&b[..]).into()), &b, key),
    }
    fn on2<P: Parser + ParserExt, const M: usize>(mut p: P, b: &[u8], key: [u8; M]) {
        let e = b.len() / 2;
        let r = if M == 20 {
            p.fast_kv_search::<[u8; M], [u8; 33], _, M, 33>(&key, |v| v).map(|o| o.map(|v| v.to_vec()))
        } else {
            p.fast_kv_search::<[u8; M], [u8; 2], _, M, 2>(&key, |v| v).map(|o| o.map(|v| v.to_vec()))
        };
        let hit = if same(&b[..M], &key) { Some(0) } else if same(&b[e..e + M], &key) { Some(1) } else { None };
        match (r, hit) {
            (Ok(Some(v)), Some(i)) => {
                sym::cover("found");
                sym::check(same(&v, &b[e * i + M..e * (i + 1)]), "the value is not the first matching key's");
                sym::check(p.remainder() == e * (1 - i), "the position is not just after the entry found");
            }
            (Ok(None), None) => {
                sym::cover("absent");
                sym::check(p.remainder() == 0, "the list was not searched to its end");
            }
            _ => sym::check(false, "searching disagrees with the entries"),
        }
    }
}
harnesses! {
    fn p26_1_1() { search::<1, 1>(6, 1) }
    fn p26_2_1() { search::<2, 1>(6, 1) }
    fn p26_1_2() { search::<1, 2>(6, 1) }
    fn p26_1_0() { search::<1, 0>(3, 1) }
    fn p26_3_4() { search::<3, 4>(14, 0) }
    fn p26_list() { list() }
    fn p26_2_1__rel() { search::<2, 1>(6, 1) }
    fn p26t_1_1() { search::<1, 1>(9, 2) }
    fn p26t_2_3() { search::<2, 3>(16, 1) }
    fn p26_far_list() { far_list() }
    fn p26_far_key20() { far_key::<20, 33>() }
    fn p26_far_key65() { far_key::<65, 2>() }
}
