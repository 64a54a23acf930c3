//! An AutoBox is its contents: construction, access, encoding, decoding, size, copies.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::conv::len::Estimable;
use tedium::*;

/// Lists, by hand and derived: the recursive types AutoBox exists for.
#[derive(Clone, Debug, PartialEq)]
pub struct List(u8, Option<AutoBox<List>>);
impl Encode for List {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        self.0.write_to(buf) + self.1.write_to(buf) + resolve_zero!(buf)
    }
}
impl Decode for List {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        Ok(List(u8::parse(p)?, <Option<AutoBox<List>>>::parse(p)?))
    }
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Tree {
    v: u16,
    kids: Dynamic<u8, Sequence<AutoBox<Tree>>>,
}
fn list(v: &[u8]) -> List {
    let mut l = List(v[v.len() - 1], None);
    for i in (0..v.len() - 1).rev() {
        l = List(v[i], Some(AutoBox::new(l)));
    }
    l
}
fn recursive() {
    want!("three");
    let n = 1 + sym::upto(2);
    let v = sym::vec(n);
    let l = list(&v);
    if n == 3 {
        sym::cover("three");
    }
    let b = enc(&l);
    let mut want = Vec::new();
    for i in 0..n {
        want.push(v[i]);
        want.push(if i + 1 < n { 0xff } else { 0 });
    }
    sym::check(same(&b, &want), "a recursive value is not written as its nested contents");
    let (r, left) = parse::<List>(&with_tail(&b, 1));
    match r {
        Ok(m) => sym::check(m == l && left == 1, "a recursive value does not decode back"),
        Err(_) => sym::check(false, "a recursive value does not decode"),
    }
}
fn leaf(v: u16) -> Tree {
    Tree { v, kids: Dynamic::new(Sequence::new()) }
}
fn tree() {
    let a = sym::upto(2);
    let mut ks = Vec::new();
    let mut want = to_be(0, 0);
    let v = sym::u16();
    want.extend(to_be(v as u64, 2));
    want.push(0);
    let mut body = Vec::new();
    for i in 0..a {
        let x = sym::u16();
        let g = if i == 0 && sym::upto(1) == 1 { Some(sym::u16()) } else { None };
        body.extend(to_be(x as u64, 2));
        match g {
            None => {
                body.push(0);
                ks.push(AutoBox::new(leaf(x)))
            }
            Some(y) => {
                body.push(3);
                body.extend(to_be(y as u64, 2));
                body.push(0);
                ks.push(AutoBox::new(Tree { v: x, kids: Dynamic::new(Sequence::from_vec(vec![AutoBox::new(leaf(y))])) }))
            }
        }
    }
    want[2] = body.len() as u8;
    want.extend(body);
    let t = Tree { v, kids: Dynamic::new(Sequence::from_vec(ks)) };
    let b = enc(&t);
    sym::check(same(&b, &want), "a tree is not written as its nested contents");
    match parse::<Tree>(&b) {
        (Ok(u), 0) => sym::check(u == t, "a tree does not decode back"),
        _ => sym::check(false, "a tree does not decode"),
    }
}
/// every way in and out
fn access() {
    let a = sym::u32();
    let mut x = match sym::upto(3) {
        0 => AutoBox::new(a),
        1 => AutoBox::from_boxed(Box::new(a)),
        2 => a.into(),
        _ => Box::new(a).into(),
    };
    sym::check(*x.as_inner() == a, "as_inner is not the contents");
    let r: &u32 = x.as_ref();
    sym::check(*r == a, "as_ref is not the contents");
    let r: &Box<u32> = x.as_ref();
    sym::check(**r == a, "the box does not hold the contents");
    let y = x.clone();
    let b = sym::u32();
    match sym::upto(2) {
        0 => *x.as_mut_inner() = b,
        1 => *x.as_mut_boxed() = Box::new(b),
        _ => *x.as_mut() = b,
    }
    sym::check(*x.as_inner() == b, "writing through a mutable view did not stick");
    sym::check(*y.as_inner() == a, "a clone shares its contents");
    match sym::upto(1) {
        0 => sym::check(*x.into_box() == b && y.into_inner() == a, "the contents changed on the way out"),
        _ => sym::check(x.into_inner() == b && *y.into_box() == a, "the contents changed on the way out"),
    }
    sym::check(AutoBox::<u32>::default().into_inner() == 0, "the default is not the default of the contents");
}
/// the codec is that of the contents, errors included
#[inline(never)]
fn codec<T: Encode + Decode + Estimable + PartialEq>(b: &[u8]) {
    match sym::upto(2) {
        0 => one::<T, ByteParser>(ByteParser::from_buffer(b.into()), ByteParser::from_buffer(b.into())),
        1 => one::<T, MemoParser>(MemoParser::from_buffer(b.into()), MemoParser::from_buffer(b.into())),
        _ => one::<T, SliceParser>(SliceParser::from_buffer(b.into()), SliceParser::from_buffer(b.into())),
    }
}
fn one<T: Encode + Decode + Estimable + PartialEq, P: Parser>(p: P, q: P) {
    let ((x, i), (y, j)) = (run::<T, P>(p), run::<AutoBox<T>, P>(q));
    sym::check(i == j, "boxing changes how much is consumed");
    match (x, y) {
        (Ok(x), Ok(y)) => {
            sym::cover("ok");
            sym::check(x == *y.as_inner(), "boxing changes the decoded value");
            sym::check(same(&enc(&x), &enc(&y)), "boxing changes the encoding");
            sym::check(x.estimate() == y.estimate() && x.unknown() == y.unknown() && T::KNOWN == <AutoBox<T>>::KNOWN, "boxing changes the estimate");
        }
        (Err(e), Err(f)) => {
            sym::cover("err");
            sym::check(std::mem::discriminant(&e) == std::mem::discriminant(&f), "boxing changes the error")
        }
        _ => sym::check(false, "boxing changes what decodes"),
    }
}
/// what the formatter was asked for reaches the contents
#[derive(Clone, Copy)]
struct Spy(u8);
macro_rules! spy {
    ($($t:ident),*) => { $(
        impl std::fmt::$t for Spy {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let mut s = Vec::with_capacity(16);
                s.push(self.0);
                s.push(f.alternate() as u8);
                s.push(f.sign_plus() as u8);
                s.push(f.sign_minus() as u8);
                s.push(f.sign_aware_zero_pad() as u8);
                s.push(f.width().map_or(255, |w| w as u8));
                s.push(f.precision().map_or(255, |w| w as u8));
                s.push(f.fill() as u8);
                s.push(match f.align() { None => 0, Some(std::fmt::Alignment::Left) => 1, Some(std::fmt::Alignment::Right) => 2, Some(_) => 3 });
                for b in s {
                    std::fmt::Write::write_char(f, (b & 127) as char)?;
                    std::fmt::Write::write_char(f, if b > 127 { 'y' } else { 'n' })?;
                }
                Ok(())
            }
        }
    )* };
}
spy!(Display, Debug);
fn formats() {
    let x = Spy(sym::u8() & 127);
    let b = AutoBox::new(x);
    macro_rules! each {
        ($($f:literal),*) => { match sym::upto(0 $(+ { let _ = $f; 1 })* - 1) { n => { let mut _i = 0; $( if n == _i {
            sym::check(same(format!($f, x).as_bytes(), format!($f, b).as_bytes()), "boxing changes how a value is shown");
        } _i += 1; )* } } };
    }
    each!("{}", "{:?}", "{:#}", "{:#?}", "{:5}", "{:<5}", "{:*^9}", "{:>+7.3}", "{:.2}", "{:012}", "{:-}", "{:#08.1}", "{:?}{0:?}", "{:*>4?}", "{:+.1?}");
}
/// and a sink that gives up is heard
fn refusals() {
    struct Sink(usize);
    impl std::fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if s.len() > self.0 {
                return Err(std::fmt::Error);
            }
            self.0 -= s.len();
            Ok(())
        }
    }
    let n = sym::upto(24);
    let (x, b) = (Spy(1), AutoBox::new(Spy(1)));
    let (mut s, mut t) = (Sink(n), Sink(n));
    use std::fmt::Write;
    let r = write!(s, "{}", x).is_ok() == write!(t, "{}", b).is_ok();
    sym::check(r && s.0 == t.0, "boxing changes how showing fails");
}
/// a long chain of boxes
fn far_recursive() {
    let n = match sym::upto(3) { 0 => 9, 1 => 17, 2 => 33, _ => 70 };
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if i < 2 || i + 2 >= n { sym::u8() } else { i as u8 });
    }
    let l = list(&v);
    let b = enc(&l);
    let mut want = Vec::new();
    for i in 0..n {
        want.push(v[i]);
        want.push(if i + 1 < n { 0xff } else { 0 });
    }
    sym::check(same(&b, &want), "a recursive value is not written as its nested contents");
    let (r, left) = parse::<List>(&with_tail(&b, 1));
    match r {
        Ok(m) => {
            sym::check(left == 1, "a recursive value does not decode back");
            let mut m = m;
            let mut i = 0;
            loop {
                sym::check(i < n && m.0 == v[i], "a recursive value does not decode back");
                i += 1;
                match m.1 {
                    None => break,
                    Some(x) => m = x.into_inner(),
                }
            }
            sym::check(i == n, "a recursive value does not decode back");
        }
        Err(_) => sym::check(false, "a recursive value does not decode"),
    }
}
fn far_tree() {
    let n = match sym::upto(2) { 0 => 9, 1 => 17, _ => 80 };
    let mut ks = Vec::new();
    let mut body = Vec::new();
    for i in 0..n {
        let x = if i == 0 || i + 1 == n { sym::u16() } else { i as u16 };
        body.extend(to_be(x as u64, 2));
        body.push(0);
        ks.push(AutoBox::new(leaf(x)));
    }
    let v = sym::u16();
    let mut want = to_be(v as u64, 2);
    want.push(body.len() as u8);
    want.extend(body);
    let t = Tree { v, kids: Dynamic::new(Sequence::from_vec(ks)) };
    let b = enc(&t);
    sym::check(same(&b, &want), "a tree is not written as its nested contents");
    match parse::<Tree>(&b) {
        (Ok(u), 0) => sym::check(u == t, "a tree does not decode back"),
        _ => sym::check(false, "a tree does not decode"),
    }
}
fn compares() {
    let (a, b) = (f64::from_bits(sym::u64()), f64::from_bits(sym::u64()));
    let (x, y) = (AutoBox::new(a), AutoBox::new(b));
    let (y, b) = if sym::upto(1) == 0 { (&x, a) } else { (&y, b) };
    sym::check((x == *y) == (a == b) && (x != *y) == (a != b), "boxed values are equal when their contents are not, or the other way round");
    sym::check(x.partial_cmp(y) == a.partial_cmp(&b) && (x < *y) == (a < b) && (x >= *y) == (a >= b), "boxed values order unlike their contents");
}
harnesses! {
    fn p32_compares() { compares() }
    fn p32_formats() { formats() }
    fn p32_refusals() { refusals() }
    fn p32_access() { access() }
    fn p32_recursive() { recursive() }
    fn p32_tree() { tree() }
    fn p32_codec_u32() { want!("ok", "err"); codec::<u32>(&sym::vec(sym::upto(5))) }
    fn p32_codec_bool() { want!("ok", "err"); codec::<bool>(&sym::vec(sym::upto(2))) }
    fn p32_codec_dynamic() { want!("ok", "err"); codec::<Dynamic<u8, Bytes>>(&sym::vec(sym::upto(4))) }
    fn p32_codec_option() { want!("ok", "err"); codec::<Option<u16>>(&sym::vec(sym::upto(4))) }
    fn p32_codec_sequence() { want!("ok", "err"); codec::<Sequence<u16>>(&sym::vec(sym::upto(5))) }
    fn p32_codec_n() { want!("ok", "err"); codec::<N>(&sym::vec(sym::upto(3))) }
    fn p32_codec_nested() { want!("ok", "err"); codec::<AutoBox<Nullable<u16>>>(&sym::vec(sym::upto(3))) }
    fn p32_far_recursive() { far_recursive() }
    fn p32_far_tree() { far_tree() }
    fn p32_far_codec_bytes() { want!("ok"); codec::<Bytes>(&ends(long())) }
    fn p32_far_codec_seq() { want!("ok", "err"); codec::<Sequence<u16>>(&ends(wide())) }
    fn p32_far_codec_fixed() { want!("ok", "err"); codec::<FixedBytes<64>>(&ends(long())) }
}
