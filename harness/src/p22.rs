//! Enumerations with payload: the tag, then the payload of exactly that constructor.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

data!(Shape, u8, shape, {
    0 => Nothing,
    1 => Dot(pub u8, pub u16),
    2 => Blob { pub len: u8, pub data: Dynamic<u8, Bytes> },
    9 => Same(pub u16),
    255 => Twin(pub u16),
    4 => Void(),
});
data!(Wide, u16, wide, {
    256 => Low(pub u8),
    1 => High { pub x: bool, pub y: Option<u8> },
    65535 => Rest(pub Bytes),
    300 => Unit,
});
data!(Nest, u8, nest, {
    7 => Inner(pub Shape, pub u8),
    8 => Tagged(pub Wide),
});

/// Which constructor, its payload's bytes: from any input, as documented.
enum Ref {
    Nothing,
    Dot(usize),
    Blob(usize),
    Same,
    Twin,
    Void,
}
fn shape_ref(b: &[u8]) -> Option<(Ref, usize)> {
    if b.is_empty() {
        return None;
    }
    let n = b.len() - 1;
    match b[0] {
        0 => Some((Ref::Nothing, 1)),
        4 => Some((Ref::Void, 1)),
        1 if n >= 3 => Some((Ref::Dot(1), 4)),
        9 if n >= 2 => Some((Ref::Same, 3)),
        255 if n >= 2 => Some((Ref::Twin, 3)),
        2 if n >= 2 => {
            let l = b[2] as usize;
            if l <= n - 2 {
                let l = sym::split(l);
                Some((Ref::Blob(l), 3 + l))
            } else {
                None
            }
        }
        _ => None,
    }
}
fn shape_is(x: &Shape, r: &Ref, b: &[u8]) -> bool {
    match (x, r) {
        (Shape::Nothing(_), Ref::Nothing) | (Shape::Void(_), Ref::Void) => true,
        (Shape::Dot(d), Ref::Dot(_)) => d.0 == b[1] && d.1 as u64 == be(&b[2..4]),
        (Shape::Blob(d), Ref::Blob(l)) => d.len == b[1] && same(&d.data.clone().into_inner(), &b[3..3 + *l]),
        (Shape::Same(d), Ref::Same) => d.0 as u64 == be(&b[1..3]),
        (Shape::Twin(d), Ref::Twin) => d.0 as u64 == be(&b[1..3]),
        _ => false,
    }
}
fn decode_shape(len: usize) {
    want!("decoded", "refused", "Nothing", "Dot", "Blob", "Same", "Twin", "Void");
    let b = sym::vec(sym::upto(len));
    let (r, left) = parse::<Shape>(&b);
    match (r, shape_ref(&b)) {
        (Ok(x), Some((w, n))) => {
            sym::cover("decoded");
            sym::cover(match w {
                Ref::Nothing => "Nothing",
                Ref::Dot(_) => "Dot",
                Ref::Blob(_) => "Blob",
                Ref::Same => "Same",
                Ref::Twin => "Twin",
                Ref::Void => "Void",
            });
            sym::check(shape_is(&x, &w, &b), "decoded another constructor or payload");
            sym::check(left == b.len() - n, "did not consume exactly tag and payload");
            sym::check(x.get_tagval() == b[0], "the tag value is not the one decoded");
            sym::check(same(&enc(&x), &b[..n]), "re-encoding differs from the bytes decoded");
        }
        (Err(_), None) => sym::cover("refused"),
        (Ok(_), None) => sym::check(false, "an undeclared tag or malformed payload was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a well-formed value was refused"),
    }
}
fn shape(k: usize) -> (Shape, Vec<u8>) {
    match k {
        0 => (Shape::Nothing(shape::Nothing), vec![0]),
        1 => {
            let (a, b) = (sym::u8(), sym::u16());
            (Shape::Dot(shape::Dot(a, b)), vec![1, a, (b >> 8) as u8, b as u8])
        }
        2 => {
            let (a, v) = (sym::u8(), sym::vec(sym::upto(2)));
            let mut raw = vec![2, a, v.len() as u8];
            raw.extend_from_slice(&v);
            (Shape::Blob(shape::Blob { len: a, data: Dynamic::new(Bytes::from_vec(v)) }), raw)
        }
        3 => {
            let b = sym::u16();
            (Shape::Same(shape::Same(b)), vec![9, (b >> 8) as u8, b as u8])
        }
        4 => {
            let b = sym::u16();
            (Shape::Twin(shape::Twin(b)), vec![255, (b >> 8) as u8, b as u8])
        }
        _ => (Shape::Void(shape::Void), vec![4]),
    }
}
fn wide(k: usize) -> (Wide, Vec<u8>) {
    match k {
        0 => {
            let a = sym::u8();
            (Wide::Low(wide::Low(a)), vec![1, 0, a])
        }
        1 => {
            let (x, some, y) = (sym::split(sym::upto(1)) == 1, sym::split(sym::upto(1)) == 1, sym::u8());
            let mut raw = vec![0, 1, if x { 255 } else { 0 }];
            if some {
                raw.push(255);
                raw.push(y);
            } else {
                raw.push(0);
            }
            (Wide::High(wide::High { x, y: if some { Some(y) } else { None } }), raw)
        }
        2 => {
            let v = sym::vec(sym::upto(2));
            let mut raw = vec![255, 255];
            raw.extend_from_slice(&v);
            (Wide::Rest(wide::Rest(Bytes::from_vec(v))), raw)
        }
        _ => (Wide::Unit(wide::Unit), vec![1, 44]),
    }
}
#[inline(never)]
fn emitted<T: Encode + Estimable + Decode + PartialEq>(x: &T, raw: &[u8], tail: bool) {
    let e = enc(x);
    sym::check(same(&e, raw), "the encoding is not tag plus payload");
    sym::check(same(&x.to_bytes(), raw), "to_bytes differs");
    sym::check(x.enc_len() == raw.len() && x.estimate() == raw.len(), "the length is not tag plus payload");
    let all = with_tail(raw, if tail { 1 } else { 0 });
    let (r, left) = parse1::<T>(&all);
    sym::check(matches!(r, Ok(y) if y == *x), "the value did not survive");
    sym::check(left == all.len() - raw.len(), "decoding did not consume exactly the encoding");
}
/// tags, names: any tag
fn tags() {
    want!("declared", "undeclared");
    let t = sym::u8();
    let w = match t {
        0 => Some("Nothing"),
        1 => Some("Dot"),
        2 => Some("Blob"),
        9 => Some("Same"),
        255 => Some("Twin"),
        4 => Some("Void"),
        _ => None,
    };
    sym::check(Shape::is_valid_tag(t) == w.is_some(), "the tag test does not accept exactly the declared tags");
    match (Shape::get_name(t), w) {
        (Some(a), Some(b)) => {
            sym::cover("declared");
            sym::check(same(a.as_bytes(), b.as_bytes()), "a tag does not have its constructor's name")
        }
        (None, None) => sym::cover("undeclared"),
        _ => sym::check(false, "names are not given to exactly the declared tags"),
    }
    let t: Vec<u8> = Shape::iter_tags().collect();
    sym::check(same(&t, &[0, 1, 2, 9, 255, 4]), "the listed tags are not the declared ones");
    let t = sym::u16();
    sym::check(Wide::is_valid_tag(t) == (t == 256 || t == 1 || t == 65535 || t == 300), "the tag test does not accept exactly the declared tags");
    let t: Vec<u16> = Wide::iter_tags().collect();
    sym::check(t.len() == 4 && t[0] == 256 && t[1] == 1 && t[2] == 65535 && t[3] == 300, "the listed tags are not the declared ones");
}
fn decode_wide(len: usize) {
    want!("decoded", "refused");
    let b = sym::vec(sym::upto(len));
    let (r, left) = parse::<Wide>(&b);
    let n = b.len();
    let want = if n < 2 {
        None
    } else {
        match be(&b[..2]) {
            256 if n >= 3 => Some((0, 3)),
            1 if n >= 4 && (b[2] == 0 || b[2] == 255) => {
                if b[3] == 0 {
                    Some((1, 4))
                } else if b[3] == 255 && n >= 5 {
                    Some((2, 5))
                } else {
                    None
                }
            }
            65535 => Some((3, n)),
            300 => Some((4, 2)),
            _ => None,
        }
    };
    match (r, want) {
        (Ok(x), Some((k, m))) => {
            sym::cover("decoded");
            sym::check(left == n - m, "did not consume exactly tag and payload");
            sym::check(match (&x, k) {
                (Wide::Low(p), 0) => p.0 == b[2],
                (Wide::High(p), 1) => p.x == (b[2] == 255) && p.y.is_none(),
                (Wide::High(p), 2) => p.x == (b[2] == 255) && p.y == Some(b[4]),
                (Wide::Rest(p), 3) => same(&p.0, &b[2..]),
                (Wide::Unit(_), 4) => true,
                _ => false,
            }, "decoded another constructor or payload");
            sym::check(x.get_tagval() as u64 == be(&b[..2]), "the tag value is not the one decoded");
            sym::check(same(&enc(&x), &b[..m]), "re-encoding differs from the bytes decoded");
        }
        (Err(_), None) => sym::cover("refused"),
        (Ok(_), None) => sym::check(false, "an undeclared tag or malformed payload was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a well-formed value was refused"),
    }
}
fn nested() {
    let (x, raw) = if sym::upto(1) == 0 {
        let (s, r) = shape(sym::upto(5));
        let k = sym::u8();
        let mut raw = vec![7];
        raw.extend_from_slice(&r);
        raw.push(k);
        (Nest::Inner(nest::Inner(s, k)), raw)
    } else {
        let (s, r) = wide(sym::upto(3));
        let mut raw = vec![8];
        raw.extend_from_slice(&r);
        (Nest::Tagged(nest::Tagged(s)), raw)
    };
    sym::check(x.get_tagval() == raw[0], "the tag value is not the constructor's");
    emitted(&x, &raw, false)
}
/// values of different constructors differ even where their payloads agree; equal values hash alike
fn equality() {
    want!("equal", "different");
    let (x, a) = shape(sym::upto(5));
    let (y, b) = shape(sym::upto(5));
    let eq = same(&a, &b);
    sym::check((x == y) == eq, "equality is not equality of tag and payload");
    if sym::bool() {
        if eq {
            sym::cover("equal");
            sym::check(same(&hashed(&x), &hashed(&y)), "equal values hash differently");
        } else {
            sym::cover("different");
        }
    }
    sym::check(x.clone() == x, "a clone differs");
}
data!(Many, u8, many, {
    11 => M0(pub u8),
    64 => M1(pub u8),
    117 => M2(pub u8),
    170 => M3(pub u8),
    223 => M4(pub u8),
    20 => M5(pub u8),
    73 => M6(pub u8),
    126 => M7(pub u8),
    179 => M8(pub u8),
    232 => M9(pub u8),
    29 => M10(pub u8),
    82 => M11(pub u8),
    135 => M12(pub u8),
    188 => M13(pub u8),
    241 => M14(pub u8),
    38 => M15(pub u8),
    91 => M16(pub u8),
    144 => M17(pub u8),
    197 => M18(pub u8),
    250 => M19(pub u8),
    200 => Blob(pub Dynamic<u16, Bytes>),
});
/// twenty constructors of the same shape
fn many_decoded() {
    want!("decoded", "refused");
    let b = sym::vec(2);
    let tags: [u8; 20] = [11, 64, 117, 170, 223, 20, 73, 126, 179, 232, 29, 82, 135, 188, 241, 38, 91, 144, 197, 250];
    let (r, left) = parse::<Many>(&b);
    let mut declared = false;
    for i in 0..20 {
        declared |= tags[i] == b[0];
    }
    match r {
        Ok(x) => {
            sym::cover("decoded");
            sym::check(declared && left == 0, "an undeclared tag was accepted, or not all was consumed");
            sym::check(x.get_tagval() == b[0], "the tag value is not the one decoded");
            sym::check(same(&enc(&x), &b), "re-encoding differs from the bytes decoded");
            sym::check(match (&x, b[0]) {
                (Many::M0(p), 11) => p.0 == b[1],
                (Many::M1(p), 64) => p.0 == b[1],
                (Many::M2(p), 117) => p.0 == b[1],
                (Many::M3(p), 170) => p.0 == b[1],
                (Many::M4(p), 223) => p.0 == b[1],
                (Many::M5(p), 20) => p.0 == b[1],
                (Many::M6(p), 73) => p.0 == b[1],
                (Many::M7(p), 126) => p.0 == b[1],
                (Many::M8(p), 179) => p.0 == b[1],
                (Many::M9(p), 232) => p.0 == b[1],
                (Many::M10(p), 29) => p.0 == b[1],
                (Many::M11(p), 82) => p.0 == b[1],
                (Many::M12(p), 135) => p.0 == b[1],
                (Many::M13(p), 188) => p.0 == b[1],
                (Many::M14(p), 241) => p.0 == b[1],
                (Many::M15(p), 38) => p.0 == b[1],
                (Many::M16(p), 91) => p.0 == b[1],
                (Many::M17(p), 144) => p.0 == b[1],
                (Many::M18(p), 197) => p.0 == b[1],
                (Many::M19(p), 250) => p.0 == b[1],
                _ => false,
            }, "decoded another constructor or payload");
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(!declared, "a well-formed value was refused");
        }
    }
    let t: Vec<u8> = Many::iter_tags().collect();
    sym::check(t.len() == 21 && same(&t[..20], &tags) && t[20] == 200, "the listed tags are not the declared ones");
    sym::check(Many::is_valid_tag(b[0]) == (declared || b[0] == 200), "the tag test does not accept exactly the declared tags");
}
/// many constructors of the same shape, tagged with wider tags
macro_rules! many_wide {
    ($u:ident, $m:ident, $r:ident, $w:expr, $f:ident, { $( $d:tt => $v:ident ),+ }) => {
        data!($u, $r, $m, { $( $d => $v(pub u8), )+ });
        fn $f() {
            want!("decoded", "refused");
            let b = sym::vec($w + 1);
            let tag = be(&b[..$w]);
            let at: &[u64] = &[ $( $d ),+ ];
            let mut declared = false;
            for i in 0..at.len() {
                declared |= at[i] == tag;
            }
            match parse::<$u>(&b) {
                (Ok(x), left) => {
                    sym::cover("decoded");
                    sym::check(declared && left == 0, "an undeclared tag was accepted, or not all was consumed");
                    sym::check(x.get_tagval() as u64 == tag, "the tag value is not the one decoded");
                    sym::check(same(&enc(&x), &b), "re-encoding differs from the bytes decoded");
                    sym::check(match &x { $( $u::$v(p) => tag == $d && p.0 == b[$w], )+ }, "decoded another constructor or payload");
                    sym::check(x.estimate() == b.len(), "the estimate differs from the length");
                }
                (Err(_), _) => {
                    sym::cover("refused");
                    sym::check(!declared, "a well-formed value was refused");
                }
            }
            sym::check($u::is_valid_tag(tag as $r) == declared, "the tag test does not accept exactly the declared tags");
        }
    };
}
many_wide!(ManyTwo, many_two, u16, 2, many_two_decoded, { 38144 => K0, 236 => K1, 46993 => K2, 47341 => K3, 32795 => K4, 100 => K5, 59392 => K6, 48640 => K7, 21821 => K8, 23808 => K9, 19512 => K10, 30 => K11, 47530 => K12, 232 => K13, 64692 => K14, 16 => K15, 9428 => K16, 62976 => K17, 59352 => K18, 34578 => K19, 46 => K20, 32318 => K21, 22016 => K22, 55 => K23, 40953 => K24, 131 => K25, 47872 => K26, 158 => K27 });
many_wide!(ManyFour, many_four, u32, 4, many_four_decoded, { 151 => K0, 2952790016 => K1, 5 => K2, 212 => K3, 2423626184 => K4, 2627635026 => K5, 2946163882 => K6, 2956384733 => K7, 3830294182 => K8, 214 => K9, 713705968 => K10, 2007778143 => K11, 1807288009 => K12, 209 => K13 });
/// a long payload
fn far() {
    let v = ends(crate::util::wide());
    let x = Many::Blob(many::Blob(Dynamic::new(Bytes::from_vec(v.clone()))));
    let mut raw = vec![200, (v.len() >> 8) as u8, v.len() as u8];
    raw.extend_from_slice(&v);
    emitted(&x, &raw, true)
}
harnesses! {
    fn p22_decode_shape() { decode_shape(5) }
    fn p22_decode_wide() { decode_wide(5) }
    fn p22_emit_shape() { let (x, raw) = shape(sym::upto(5)); sym::check(x.get_tagval() == raw[0], "the tag value is not the constructor's"); emitted(&x, &raw, true) }
    fn p22_emit_wide() { let (x, raw) = wide(sym::upto(3)); sym::check(x.get_tagval() as u64 == be(&raw[..2]), "the tag value is not the constructor's"); emitted(&x, &raw, false) }
    fn p22_tags() { tags() }
    fn p22_nested() { nested() }
    fn p22_equality() { equality() }
    fn p22_decode_shape__rel() { decode_shape(5) }
    fn p22_emit_shape__rel() { let (x, raw) = shape(sym::upto(5)); emitted(&x, &raw, true) }
    fn p22_emit_wide__elo() { let (x, raw) = wide(sym::upto(3)); emitted(&x, &raw, false) }
    fn p22t_decode_shape() { decode_shape(9) }
    fn p22t_decode_wide() { decode_wide(9) }
    fn p22_many() { many_decoded() }
    fn p22_many_two() { many_two_decoded() }
    fn p22_many_four() { many_four_decoded() }
    fn p22_far() { far() }
}
