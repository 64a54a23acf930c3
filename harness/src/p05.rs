//! Booleans, options and discriminants: only the documented bytes are accepted.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::parse::error::{InternalError, ParseError, TokenError};
use tedium::parse::ParseResult;
use tedium::*;

fn boolean() {
    want!("true", "false", "other", "short");
    let v = sym::bool();
    let e = enc(&v);
    sym::check(e.len() == 1 && e[0] == if v { 0xff } else { 0 }, "a boolean is not encoded as 0xff or 0x00");
    sym::check(<bool as FixedLength>::LEN == 1, "a boolean is not one byte");
    let b = sym::vec(sym::upto(2));
    let (r, left) = parse::<bool>(&b);
    match r {
        Ok(x) => {
            sym::check(b.len() >= 1, "decoded from nothing");
            sym::check(b[0] == if x { 0xff } else { 0 }, "a byte other than 0x00 and 0xff decoded as a boolean, or with the wrong sense");
            sym::check(left == b.len() - 1, "a boolean did not consume one byte");
            sym::cover(if x { "true" } else { "false" });
        }
        Err(ParseError::Token(TokenError::InvalidBoolean(x))) => {
            sym::check(b.len() >= 1 && x == b[0], "the byte reported as invalid is not the one read");
            sym::check(x != 0 && x != 0xff, "a valid boolean was refused");
            sym::cover("other");
        }
        Err(_) => {
            sym::check(b.is_empty(), "a boolean was refused");
            sym::cover("short");
        }
    }
}
/// `decode_inner`: what decoding the payload from `b` gives (number of bytes used), if anything
fn option<T: Encode + Decode + Estimable + PartialEq>(max: usize, known: impl Fn(&[u8]) -> Option<usize>, val: Option<T>) {
    want!("some", "none", "bad tag", "bad payload", "short");
    let e = enc(&val);
    match &val {
        None => sym::check(e.len() == 1 && e[0] == 0, "None is not the single byte 0x00"),
        Some(x) => {
            let p = enc(x);
            sym::check(e.len() == 1 + p.len() && e[0] == 0xff && same(&e[1..], &p), "Some is not 0xff followed by its payload");
        }
    }
    let b = sym::vec(sym::upto(max));
    let (r, left) = parse::<Option<T>>(&b);
    let inner = if b.is_empty() { None } else { known(&b[1..]) };
    match r {
        Ok(None) => {
            sym::cover("none");
            sym::check(b.len() >= 1 && b[0] == 0, "None decoded from a byte other than 0x00");
            sym::check(left == b.len() - 1, "None consumed more than its byte");
        }
        Ok(Some(x)) => {
            sym::cover("some");
            sym::check(b.len() >= 1 && b[0] == 0xff, "Some decoded from a byte other than 0xff");
            sym::check(matches!(inner, Some(n) if left == b.len() - 1 - n), "Some did not consume its payload");
            sym::check(same(&enc(&Some(x)), &b[..b.len() - left]), "re-encoding differs from the bytes decoded");
        }
        Err(_) => {
            if b.is_empty() {
                sym::cover("short");
            } else if b[0] == 0xff {
                sym::cover("bad payload");
                sym::check(inner.is_none(), "a valid Some was refused");
            } else {
                sym::cover("bad tag");
                sym::check(b[0] != 0, "a valid None was refused");
            }
        }
    }
}
macro_rules! tags {
    ($t:ident, $w:expr, $max:expr) => {{
        want!("accepted", "refused", "no tags", "short");
        let n = sym::upto($max);
        let mut set: Vec<$t> = Vec::with_capacity(n);
        for _ in 0..n {
            set.push(sym::$t());
        }
        let b = sym::vec(sym::upto($w + 1));
        let mut p = ByteParser::from_buffer((&b[..]).into());
        let r: ParseResult<$t> = match sym::upto(4) {
            0 => p.take_tagword::<(), $t, _>(&set[..]),
            1 => p.take_tagword::<(), $t, _>(&set),
            2 => p.take_tagword::<(), $t, _>(set.clone()),
            3 => match n {
                0 => p.take_tagword::<(), $t, _>([]),
                1 => p.take_tagword::<(), $t, _>([set[0]]),
                2 => p.take_tagword::<(), $t, _>([set[0], set[1]]),
                _ => p.take_tagword::<(), $t, _>([set[0], set[1], set[2]]),
            },
            _ => match n {
                0 => p.take_tagword::<(), $t, _>(&[]),
                1 => p.take_tagword::<(), $t, _>(&[set[0]]),
                2 => p.take_tagword::<(), $t, _>(&[set[0], set[1]]),
                _ => p.take_tagword::<(), $t, _>(&[set[0], set[1], set[2]]),
            },
        };
        let left = p.remainder();
        let mut member = false;
        if b.len() >= $w {
            let v = be(&b[..$w]) as $t;
            for i in 0..n {
                member |= set[i] == v;
            }
        }
        match r {
            Ok(x) => {
                sym::cover("accepted");
                sym::check(b.len() >= $w, "a tag was read from too few bytes");
                sym::check(x == be(&b[..$w]) as $t, "the tag is not the big-endian value");
                sym::check(member, "a tag outside the valid set was accepted");
                sym::check(left == b.len() - $w, "a tag did not consume exactly its width");
            }
            Err(ParseError::Internal(InternalError::NoValidTags)) => {
                sym::cover("no tags");
                sym::check(n == 0, "`no valid tags` reported for a non-empty set");
            }
            Err(ParseError::Token(t)) => {
                sym::cover("refused");
                let kind = match ($w, t) {
                    (1, TokenError::InvalidTagU8(_)) => true,
                    (2, TokenError::InvalidTagU16(_)) => true,
                    (4, TokenError::InvalidTagU30(_)) => true,
                    _ => false,
                };
                sym::check(kind, "an invalid tag is reported with the wrong width");
                sym::check(!member, "a valid tag was refused");
                sym::check(n > 0, "an empty set did not report `no valid tags`");
            }
            Err(_) => {
                sym::cover("short");
                sym::check(b.len() < $w, "a tag was refused although its bytes are there");
            }
        }
    }};
}
/// large tag sets, in any order, one of them free
macro_rules! many_tags {
    ($t:ident, $w:expr) => {{
        want!("accepted", "refused");
        let n = match sym::upto(4) { 0 => 9, 1 => 17, 2 => 33, 3 => 65, _ => 255 };
        let mut set: Vec<$t> = Vec::with_capacity(n);
        let up = sym::upto(1) == 0;
        for i in 0..n {
            set.push(if up { (i as $t).wrapping_mul(3) } else { ((n - i) as $t).wrapping_mul(3) });
        }
        let at = edge(n - 1);
        set[at] = sym::$t();
        let b = sym::vec($w);
        let v = be(&b) as $t;
        let mut member = false;
        for i in 0..n {
            member |= set[i] == v;
        }
        let mut p = ByteParser::from_buffer((&b[..]).into());
        let r: ParseResult<$t> = if sym::upto(1) == 0 { p.take_tagword::<(), $t, _>(&set[..]) } else { p.take_tagword::<(), $t, _>(set.clone()) };
        match r {
            Ok(x) => {
                sym::cover("accepted");
                sym::check(x == v && member, "a tag outside the valid set was accepted, or read as another");
                sym::check(p.remainder() == 0, "a tag did not consume exactly its width");
            }
            Err(ParseError::Token(_)) => {
                sym::cover("refused");
                sym::check(!member, "a valid tag was refused");
            }
            Err(_) => sym::check(false, "an invalid tag is reported as something else"),
        }
    }};
}
fn far_option() {
    let n = long();
    let v = ends(n);
    let e = enc(&Some(Bytes::from_vec(v.clone())));
    sym::check(e.len() == n + 1 && e[0] == 0xff && same(&e[1..], &v), "Some is not 0xff followed by its payload");
    let mut b = v;
    b.insert(0, sym::u8());
    let (r, left) = parse::<Option<Bytes>>(&b);
    match r {
        Ok(None) => sym::check(b[0] == 0 && left == n, "None decoded from a byte other than 0x00, or more was consumed"),
        Ok(Some(x)) => sym::check(b[0] == 0xff && left == 0 && same(&x, &b[1..]), "Some decoded from a byte other than 0xff, or from another payload"),
        Err(_) => sym::check(b[0] != 0 && b[0] != 0xff, "a valid option was refused"),
    }
}
harnesses! {
    fn p05_bool() { boolean() }
    fn p05_bool__rel() { boolean() }
    fn p05_option_u8() {
        let v = if sym::bool() { Some(sym::u8()) } else { None };
        option::<u8>(3, |b| if b.len() >= 1 { Some(1) } else { None }, v)
    }
    fn p05_option_u16() {
        let v = if sym::bool() { Some(sym::u16()) } else { None };
        option::<u16>(4, |b| if b.len() >= 2 { Some(2) } else { None }, v)
    }
    fn p05_option_bool() {
        let v = if sym::bool() { Some(sym::bool()) } else { None };
        option::<bool>(3, |b| if b.len() >= 1 && (b[0] == 0 || b[0] == 0xff) { Some(1) } else { None }, v)
    }
    fn p05_option_option() {
        let v = if sym::bool() { Some(if sym::bool() { Some(sym::u8()) } else { None }) } else { None };
        option::<Option<u8>>(4, |b| if b.len() >= 1 && b[0] == 0 { Some(1) } else if b.len() >= 2 && b[0] == 0xff { Some(2) } else { None }, v)
    }
    fn p05_option_dynamic() {
        let v = if sym::bool() { Some(Dynamic::<u8, Bytes>::new(Bytes::from_vec(sym::vec(sym::upto(2))))) } else { None };
        option::<Dynamic<u8, Bytes>>(4, |b| if b.len() >= 1 && b.len() - 1 >= b[0] as usize { Some(1 + b[0] as usize) } else { None }, v)
    }
    fn p05_tag_u8() { tags!(u8, 1, 3) }
    fn p05_tag_u16() { tags!(u16, 2, 3) }
    fn p05_tag_u32() { tags!(u32, 4, 3) }
    fn p05_many_u8() { many_tags!(u8, 1) }
    fn p05_many_u16() { many_tags!(u16, 2) }
    fn p05_many_u32() { many_tags!(u32, 4) }
    fn p05_far_option() { far_option() }
}
