//! Enumerations without payload: exactly the declared tags, each the one constructor's.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::convert::TryFrom;
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

cstyle!(Small, u8, { Two = 2, Three = 3, Five = 5, Seven = 7 });
cstyle!(One, u8, { Only = 0 });
cstyle!(Edge, u8, { Low = 0, Mid = 128, High = 255 });
cstyle!(Unsorted, u8, { C = 200, A = 1, B = 100, Z = 0 });
cstyle!(Wide, u16, { Red = 1, Green = 300, Blue = 65535, Alpha = 256 });
cstyle!(Huge, u32, { Zero = 0, Big = 0x0102_0304, Top = 0xffff_ffff, Byte = 4 });

macro_rules! cstyle_check {
    ($t:ident, $r:ident, $w:expr, $len:expr, [ $( $v:ident = $d:expr ),+ ]) => {{
        want!("declared", "undeclared", "decoded", "unknown tag", "too short");
        let table: &[($t, $r, &str)] = &[ $( ($t::$v, $d, stringify!($v)) ),+ ];
        // every tag, declared or not
        let tag = sym::$r();
        let mut at: Option<usize> = None;
        for i in 0..table.len() {
            if table[i].1 == tag {
                at = Some(i);
            }
        }
        sym::check($t::is_valid_tag(tag) == at.is_some(), "the tag test does not accept exactly the declared tags");
        let name = $t::get_name(tag);
        let r = $t::try_from(tag);
        match at {
            Some(i) => {
                sym::cover("declared");
                sym::check(matches!(name, Some(s) if same(s.as_bytes(), table[i].2.as_bytes())), "a tag does not have its constructor's name");
                sym::check(matches!(r, Ok(x) if x == table[i].0), "a tag does not convert into its constructor");
            }
            None => {
                sym::cover("undeclared");
                sym::check(name.is_none(), "an undeclared tag has a name");
                sym::check(r.is_err(), "an undeclared tag converts into a constructor");
            }
        }
        // every constructor
        let i = sym::split(sym::upto(table.len() - 1));
        let x = table[i].0;
        sym::check(x.get_tagval() == table[i].1 && x as $r == table[i].1, "a constructor has another tag");
        let e = enc(&x);
        sym::check(same(&e, &to_be(table[i].1 as u64, $w)), "a constructor is not encoded as its tag");
        sym::check(same(&x.to_bytes(), &e), "to_bytes differs from write_to");
        sym::check(<$t as FixedLength>::LEN == $w && x.enc_len() == $w && x.estimate() == $w && <$t as Estimable>::KNOWN == Some($w), "the length is not the tag's");
        // the tags listed
        let mut n = 0;
        for t in $t::iter_tags() {
            if n < table.len() {
                sym::check(t == table[n].1, "the listed tags are not the declared ones");
            }
            n += 1;
        }
        sym::check(n == table.len(), "the number of listed tags is not the number of constructors");
        // any input
        let b = sym::vec(sym::upto($len));
        let (r, left) = parse::<$t>(&b);
        let mut want: Option<usize> = None;
        if b.len() >= $w {
            let tag = be(&b[..$w]) as $r;
            for i in 0..table.len() {
                if table[i].1 == tag {
                    want = Some(i);
                }
            }
        }
        match (r, want) {
            (Ok(x), Some(i)) => {
                sym::cover("decoded");
                sym::check(x == table[i].0, "decoded another constructor");
                sym::check(left == b.len() - $w, "did not consume exactly the tag");
            }
            (Err(_), None) => {
                if b.len() < $w {
                    sym::cover("too short")
                } else {
                    sym::cover("unknown tag")
                }
            }
            (Ok(_), None) => sym::check(false, "an undeclared or truncated tag was decoded"),
            (Err(_), Some(_)) => sym::check(false, "a declared tag was refused"),
        }
    }};
}
fn small() { cstyle_check!(Small, u8, 1, 2, [Two = 2, Three = 3, Five = 5, Seven = 7]) }
fn wide() { cstyle_check!(Wide, u16, 2, 3, [Red = 1, Green = 300, Blue = 65535, Alpha = 256]) }
fn huge() { cstyle_check!(Huge, u32, 4, 5, [Zero = 0, Big = 0x0102_0304, Top = 0xffff_ffff, Byte = 4]) }
cstyle!(Many, u8, { V0 = 7, V1 = 48, V2 = 89, V3 = 130, V4 = 171, V5 = 212, V6 = 253, V7 = 38, V8 = 79, V9 = 120, V10 = 161, V11 = 202, V12 = 243, V13 = 28, V14 = 69, V15 = 110, V16 = 151, V17 = 192, V18 = 233, V19 = 18, V20 = 59, V21 = 100, V22 = 141, V23 = 182, V24 = 223, V25 = 8, V26 = 49, V27 = 90, V28 = 131, V29 = 172, V30 = 213, V31 = 254, V32 = 39, V33 = 80, V34 = 121, V35 = 162, V36 = 203, V37 = 244, V38 = 29, V39 = 70 });
cstyle!(ManyWide, u16, { W0 = 13, W1 = 7932, W2 = 15851, W3 = 23770, W4 = 31689, W5 = 39608, W6 = 47527, W7 = 55446, W8 = 63365, W9 = 5748, W10 = 13667, W11 = 21586, W12 = 29505, W13 = 37424, W14 = 45343, W15 = 53262, W16 = 61181, W17 = 3564, W18 = 11483, W19 = 19402 });
fn many() { cstyle_check!(Many, u8, 1, 2, [V0 = 7, V1 = 48, V2 = 89, V3 = 130, V4 = 171, V5 = 212, V6 = 253, V7 = 38, V8 = 79, V9 = 120, V10 = 161, V11 = 202, V12 = 243, V13 = 28, V14 = 69, V15 = 110, V16 = 151, V17 = 192, V18 = 233, V19 = 18, V20 = 59, V21 = 100, V22 = 141, V23 = 182, V24 = 223, V25 = 8, V26 = 49, V27 = 90, V28 = 131, V29 = 172, V30 = 213, V31 = 254, V32 = 39, V33 = 80, V34 = 121, V35 = 162, V36 = 203, V37 = 244, V38 = 29, V39 = 70]) }
fn many_wide() { cstyle_check!(ManyWide, u16, 2, 3, [W0 = 13, W1 = 7932, W2 = 15851, W3 = 23770, W4 = 31689, W5 = 39608, W6 = 47527, W7 = 55446, W8 = 63365, W9 = 5748, W10 = 13667, W11 = 21586, W12 = 29505, W13 = 37424, W14 = 45343, W15 = 53262, W16 = 61181, W17 = 3564, W18 = 11483, W19 = 19402]) }
harnesses! {
    fn p21_small() { small() }
    fn p21_one() { cstyle_check!(One, u8, 1, 2, [Only = 0]) }
    fn p21_edge() { cstyle_check!(Edge, u8, 1, 2, [Low = 0, Mid = 128, High = 255]) }
    fn p21_unsorted() { cstyle_check!(Unsorted, u8, 1, 2, [C = 200, A = 1, B = 100, Z = 0]) }
    fn p21_wide() { wide() }
    fn p21_huge() { huge() }
    fn p21_small__rel() { small() }
    fn p21_wide__rel() { wide() }
    fn p21_huge__rel() { huge() }
    fn p21_many() { many() }
    fn p21_many_wide() { many_wide() }
}
