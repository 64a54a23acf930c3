//! Length-prefixed values: the prefix is the exact payload length, and decoding is confined to it.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::conv::len::Estimable;
use tedium::conv::target::Target;
use tedium::dynamic::LenPref;
use tedium::int::MAX_OCAML_NATIVE_UINT;
use tedium::*;

/// A payload that reports a length without having one.
struct Ghost(usize);
impl Encode for Ghost {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        buf.push_all(&[0xa5]);
        self.0
    }
}
impl Estimable for Ghost {
    const KNOWN: Option<usize> = None;
    fn unknown(&self) -> usize {
        self.0
    }
}
/// Records what is written and never allocates on request.
struct Tape {
    v: Vec<u8>,
    asked: usize,
    resolved: usize,
}
impl Target for Tape {
    fn anticipate(&mut self, extra: usize) {
        self.asked = extra;
    }
    fn create() -> Self {
        Tape { v: Vec::with_capacity(16), asked: 0, resolved: 0 }
    }
    fn push_one(&mut self, b: u8) -> usize {
        self.v.push(b);
        1
    }
    fn push_many<const N: usize>(&mut self, arr: [u8; N]) -> usize {
        self.v.extend_from_slice(&arr);
        N
    }
    fn push_all(&mut self, buf: &[u8]) -> usize {
        self.v.extend_from_slice(buf);
        buf.len()
    }
    fn resolve(&mut self) {
        self.resolved += 1;
    }
}
/// any payload length whatsoever
fn ghost<S: LenPref>(w: usize, max: usize) {
    want!("fits", "too long");
    let n = sym::usize();
    let fits = n <= max;
    sym::check(S::max_len() == max, "the largest representable length is wrong");
    sym::check(<S as FixedLength>::LEN == w, "the prefix width is wrong");
    let d = Dynamic::<S, Ghost>::new(Ghost(n));
    match d.length_prefix() {
        Ok(p) => {
            sym::check(fits, "a length prefix was computed for an unrepresentable length");
            let k: usize = p.into();
            sym::check(k == n, "the length prefix is not the payload length");
            sym::check(same(&enc(&p), &to_be(n as u64, w)), "the length prefix is not encoded big-endian");
        }
        Err(_) => {
            sym::cover("too long");
            sym::check(!fits, "no length prefix for a representable length")
        }
    }
    sym::panic_ok(!fits);
    let mut t = Tape::create();
    let k = d.write_to(&mut t);
    sym::check(fits, "a payload longer than its prefix can say was emitted");
    sym::cover("fits");
    sym::check(k == w + n, "the reported count is not prefix plus payload");
    sym::check(t.v.len() == w + 1 && same(&t.v[..w], &to_be(n as u64, w)), "the prefix is not the payload length");
    sym::check(t.v[w] == 0xa5, "the payload does not follow its prefix");
}
/// decoding any input against the reference
fn bytes<S: LenPref>(w: usize, max: usize, len: usize) {
    want!("decoded", "too short");
    let b = sym::vec(sym::upto(len));
    let (r, left) = parse::<Dynamic<S, Bytes>>(&b);
    let want = if b.len() < w {
        None
    } else {
        let n = be(&b[..w]) as usize;
        if n <= max && n <= b.len() - w {
            Some(sym::split(n))
        } else {
            None
        }
    };
    match (r, want) {
        (Ok(d), Some(n)) => {
            sym::cover("decoded");
            let p = d.into_inner().into_vec();
            sym::check(same(&p, &b[w..w + n]), "the payload is not the bytes the prefix spans");
            sym::check(left == b.len() - w - n, "decoding did not consume exactly prefix and payload");
            sym::check(same(&enc(&Dynamic::<S, Bytes>::new(Bytes::from_vec(p))), &b[..w + n]), "re-encoding differs from the bytes decoded");
        }
        (Err(_), None) => sym::cover("too short"),
        (Ok(_), None) => sym::check(false, "a prefix that spans more than there is was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a well-formed value was refused"),
    }
}
/// a payload must fill its span exactly
fn exact<S: LenPref, T: Decode>(w: usize, len: usize, payload: impl Fn(&[u8]) -> bool, value: impl Fn(T, &[u8]) -> bool) {
    want!("decoded", "refused");
    let b = sym::vec(sym::upto(len));
    let (r, left) = parse::<Dynamic<S, T>>(&b);
    let mut want = None;
    if b.len() >= w {
        let n = be(&b[..w]) as usize;
        if n <= b.len() - w {
            let n = sym::split(n);
            if payload(&b[w..w + n]) {
                want = Some(n);
            }
        }
    }
    match (r, want) {
        (Ok(d), Some(n)) => {
            sym::cover("decoded");
            sym::check(left == b.len() - w - n, "decoding did not consume exactly prefix and payload");
            sym::check(value(d.into_inner(), &b[w..w + n]), "decoded payload differs");
        }
        (Err(_), None) => sym::cover("refused"),
        (Ok(_), None) => sym::check(false, "a payload that does not fill its span was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a well-formed value was refused"),
    }
}
/// payloads of a given (large) length: what is encoded, and that it decodes back with a tail behind it
fn sized<S: LenPref>(w: usize, max: usize, n: usize, tail: usize) {
    let mut v = vec![0u8; n];
    if n > 0 {
        v[0] = sym::u8();
        v[n - 1] = sym::u8();
        v[n / 2] = sym::u8();
    }
    let d = Dynamic::<S, Bytes>::new(Bytes::from_vec(v.clone()));
    sym::panic_ok(n > max);
    let mut e = enc(&d);
    sym::check(n <= max, "a payload longer than its prefix can say was emitted");
    sym::check(e.len() == w + n && same(&e[..w], &to_be(n as u64, w)), "the prefix is not the payload length");
    sym::check(e[w..] == v[..], "the payload does not follow its prefix");
    for _ in 0..tail {
        e.push(sym::u8());
    }
    let (r, left) = parse1::<Dynamic<S, Bytes>>(&e);
    sym::check(left == tail, "decoding did not consume exactly prefix and payload");
    match r {
        Ok(x) => sym::check(x.into_inner().into_vec()[..] == v[..], "the payload did not survive"),
        Err(_) => sym::check(false, "an encoded value was refused"),
    }
}
fn pick(a: &[usize]) -> usize {
    a[sym::upto(a.len() - 1)]
}
const M30: usize = MAX_OCAML_NATIVE_UINT as usize;
type U30 = u30;
/// long inputs: a prefix one less, as much as, or one more than what follows it
fn far<S: LenPref>(w: usize, max: usize) {
    want!("decoded", "too short", "tail");
    let have = long();
    let n = have + sym::upto(2) - 1;
    if n > max {
        return;
    }
    let mut b = to_be(n as u64, w);
    b.extend_from_slice(&ends(have));
    let (r, left) = parse::<Dynamic<S, Bytes>>(&b);
    match r {
        Ok(d) => {
            sym::cover("decoded");
            sym::check(n <= have, "a prefix that spans more than there is was accepted");
            sym::check(left == have - n, "decoding did not consume exactly prefix and payload");
            if left > 0 {
                sym::cover("tail");
            }
            sym::check(same(d.as_ref(), &b[w..w + n]), "the payload is not the bytes the prefix spans");
        }
        Err(_) => {
            sym::cover("too short");
            sym::check(n > have, "a well-formed value was refused")
        }
    }
}
type D1<T> = Dynamic<u8, T>;
type D4<T> = D1<D1<D1<D1<T>>>>;
type D20<T> = D4<D4<D4<D4<D4<T>>>>>;
trait Peel {
    fn peel(self) -> Vec<u8>;
}
impl Peel for Bytes {
    fn peel(self) -> Vec<u8> {
        self.into_vec()
    }
}
impl<T: Peel> Peel for Dynamic<u8, T> {
    fn peel(self) -> Vec<u8> {
        self.into_inner().peel()
    }
}
/// twenty prefixes inside one another, one of which may say something else
fn onion() {
    want!("decoded", "refused");
    let mut b: Vec<u8> = Vec::new();
    for i in 0..20 {
        b.push(19 - i + 3);
    }
    b.extend_from_slice(&sym::bytes::<4>());
    let at = match sym::upto(4) { 0 => 0, 1 => 7, 2 => 8, 3 => 16, _ => 19 };
    let good = b[at];
    b[at] = sym::u8();
    let (r, left) = parse::<D20<Bytes>>(&b);
    let ok = b[at] == good;
    match r {
        Ok(d) => {
            sym::cover("decoded");
            sym::check(ok, "nested prefixes that do not add up were accepted");
            sym::check(left == 1, "decoding did not consume exactly prefix and payload");
            sym::check(same(&d.peel(), &b[20..23]), "the payload is not the bytes the innermost prefix spans");
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(!ok, "a well-formed value was refused");
        }
    }
}
harnesses! {
    fn p09_ghost_u8() { ghost::<u8>(1, 255) }
    fn p09_ghost_u16() { ghost::<u16>(2, 65535) }
    fn p09_ghost_u30() { ghost::<U30>(4, M30) }
    fn p09_ghost_u8__rel() { ghost::<u8>(1, 255) }
    fn p09_ghost_u16__rel() { ghost::<u16>(2, 65535) }
    fn p09_ghost_u30__rel() { ghost::<U30>(4, M30) }
    fn p09_ghost_u8__elo() { ghost::<u8>(1, 255) }
    fn p09_ghost_u16__elo() { ghost::<u16>(2, 65535) }
    fn p09_ghost_u30__elo() { ghost::<U30>(4, M30) }
    fn p09_bytes_u8() { bytes::<u8>(1, 255, 6) }
    fn p09_bytes_u16() { bytes::<u16>(2, 65535, 7) }
    fn p09_bytes_u30() { bytes::<U30>(4, M30, 9) }
    fn p09_exact_u16() { exact::<u8, u16>(1, 5, |b| b.len() == 2, |x, b| x as u64 == be(b)) }
    fn p09_exact_bool() { exact::<u16, bool>(2, 4, |b| b.len() == 1 && (b[0] == 0 || b[0] == 0xff), |x, b| x == (b[0] == 0xff)) }
    fn p09_exact_option() {
        exact::<u8, Option<u8>>(1, 4, |b| (b.len() == 1 && b[0] == 0) || (b.len() == 2 && b[0] == 0xff),
            |x, b| match x { None => b.len() == 1, Some(v) => b.len() == 2 && v == b[1] })
    }
    fn p09_exact_seq() {
        exact::<u8, Sequence<u16>>(1, 6, |b| b.len() % 2 == 0, |x, b| { let v = x.into_inner(); let mut ok = v.len() * 2 == b.len(); for i in 0..v.len() { ok &= v[i] as u64 == be(&b[2 * i..2 * i + 2]); } ok })
    }
    fn p09_nested() {
        exact::<u16, Dynamic<u8, Bytes>>(2, 6, |b| b.len() >= 1 && b[0] as usize == b.len() - 1, |x, b| same(&x.into_inner().into_vec(), &b[1..]))
    }
    fn p09_nested_three() {
        exact::<u8, Dynamic<u8, Dynamic<u8, Bytes>>>(1, 6, |b| b.len() >= 2 && b[0] as usize == b.len() - 1 && b[1] as usize == b.len() - 2,
            |x, b| same(&x.into_inner().into_inner().into_vec(), &b[2..]))
    }
    fn p09_sized_u8() { sized::<u8>(1, 255, pick(&[0, 1, 2, 63, 64, 127, 128, 129, 254, 255]), 2) }
    fn p09_sized_u16() { sized::<u16>(2, 65535, pick(&[0, 1, 127, 128, 255, 256, 257, 300, 511, 512, 4096]), 1) }
    fn p09_sized_u30() { sized::<U30>(4, M30, pick(&[0, 1, 255, 256, 1000]), 1) }
    fn p09_toolong_u8() { want!("done"); sym::cover("done"); sized::<u8>(1, 255, pick(&[256, 257, 511, 512]), 0) }
    fn p09_sized_u16_max() { sized::<u16>(2, 65535, pick(&[32767, 32768, 65534, 65535]), 1) }
    fn p09_toolong_u16() { want!("done"); sym::cover("done"); sized::<u16>(2, 65535, pick(&[65536, 65537]), 0) }
    fn p09_sized_u30_mid() { sized::<U30>(4, M30, pick(&[65535, 65536, 70000]), 1) }
    fn p09t_sized_u30_big() { sized::<U30>(4, M30, pick(&[1 << 20]), 1) }
    fn p09t_bytes_u8() { bytes::<u8>(1, 255, 40) }
    fn p09t_bytes_u16() { bytes::<u16>(2, 65535, 24) }
    fn p09_far_u8() { far::<u8>(1, 255) }
    fn p09_far_u16() { far::<u16>(2, 65535) }
    fn p09_far_u30() { far::<U30>(4, M30) }
    fn p09_onion() { onion() }
}
