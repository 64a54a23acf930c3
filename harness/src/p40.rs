//! Errors report what really happened: the amounts asked for, left and allowed, and the offending bytes.
use crate::model::Model;
use crate::util::*;
use crate::{harnesses, sym, want};
use std::convert::TryFrom;
use tedium::error::{BoundsError, LengthError, WidthError};
use tedium::parse::error::{ExternalError, ParseError, TagError, TokenError, WindowError};
use tedium::parse::ParserExt;
use tedium::*;

#[inline(never)]
fn overrun(e: &ParseError, asked: usize, m: &Model) {
    match e {
        ParseError::Window(WindowError::ConsumeWouldExceedLimit { offset, requested, limit }) => {
            sym::cover("overrun");
            sym::check(*requested == asked, "the amount reported as requested is not the one asked for");
            sym::check(*offset <= *limit && *limit - *offset == m.rem(), "the room reported is not the number of bytes left in scope");
        }
        _ => sym::check(false, "running out of input is reported as something else"),
    }
}
#[inline(never)]
fn no_room(e: &ParseError, asked: usize, m: &Model) {
    match e {
        ParseError::Window(WindowError::OpenWouldExceedWindow { limit, request }) => {
            sym::cover("wider than window");
            sym::check(*request == asked, "the width reported as requested is not the one asked for");
            sym::check(*limit == m.rem(), "the width reported for the current window is not what is left of it");
        }
        ParseError::Window(WindowError::OpenWouldExceedBuffer { bytes_left, request }) => {
            sym::cover("wider than buffer");
            sym::check(*request == asked, "the width reported as requested is not the one asked for");
            sym::check(*bytes_left == m.buf.len() - m.pos, "the number of bytes reported as left in the buffer is not that");
            sym::check(asked > m.buf.len() - m.pos, "a window is said to exceed the buffer although the buffer has that much");
        }
        _ => sym::check(false, "a window that does not fit is reported as something else"),
    }
}
#[inline(never)]
fn one<P: Parser + ParserExt>(buf: &[u8], mut p: P, wins: usize) {
    let mut m = Model::arbitrary(buf, &mut p, wins);
    // a step that moves within the innermost window
    let k = sym::upto(m.rem());
    sym::check(p.skip_exactly(k).is_ok(), "skipping within the window is refused");
    m.pos += k;
    step(&mut p, m, false)
}
/// one operation, of any width (`over`: of more than is there)
#[inline(never)]
fn step<P: Parser + ParserExt>(p: &mut P, mut m: Model<'_>, over: bool) {
    let any = |m: &Model| {
        let n = sym::usize();
        if over {
            sym::assume(n > m.rem())
        }
        n
    };
    match sym::upto(8) {
        0 => {
            let n = any(&m);
            if let Err(e) = p.consume(n) {
                overrun(&e, n, &m)
            }
        }
        1 => {
            if let Err(e) = p.consume_byte() {
                overrun(&e, 1, &m)
            }
        }
        2 => {
            let n = any(&m);
            if let Err(e) = p.skip_exactly(n) {
                overrun(&e, n, &m)
            }
        }
        3 => {
            if let Err(e) = p.take_u16() {
                overrun(&e, 2, &m)
            }
        }
        4 => {
            if let Err(e) = p.take_fixed::<3>() {
                overrun(&e, 3, &m)
            }
        }
        5 => {
            let n = any(&m);
            if let Err(e) = p.take_dynamic(n) {
                overrun(&e, n, &m)
            }
        }
        6 => {
            let n = any(&m);
            if let Err(e) = p.set_fit(n) {
                no_room(&e, n, &m)
            }
        }
        7 => {
            if let Err(e) = p.process_prefix::<u8>() {
                if m.rem() == 0 {
                    overrun(&e, 1, &m)
                } else {
                    let n = m.buf[m.pos] as usize;
                    m.pos += 1;
                    no_room(&e, n, &m)
                }
            }
        }
        _ => match p.enforce_target() {
            Ok(()) => {}
            Err(ParseError::Window(WindowError::CloseWithoutWindow)) => sym::check(m.ends.is_empty(), "`no window` reported although one is open"),
            Err(ParseError::Window(WindowError::CloseWithResidue { residual })) => {
                sym::cover("residue");
                sym::check(!m.ends.is_empty() && residual == m.rem(), "the residue reported is not the number of unconsumed bytes")
            }
            Err(_) => sym::check(false, "undocumented error from closing a window"),
        },
    }
}
fn windows(max: usize, wins: usize) {
    want!("overrun", "wider than window", "wider than buffer", "residue");
    let b = sym::vec(sym::upto(max));
    match sym::upto(2) {
        0 => one(&b, ByteParser::from_buffer((&b[..]).into()), wins),
        1 => one(&b, MemoParser::from_buffer((&b[..]).into()), wins),
        _ => one(&b, SliceParser::from_buffer((&b[..]).into()), wins),
    }
}
/// the same at the far end of long inputs, and in many windows
fn far_windows() {
    want!("overrun", "wider than window", "wider than buffer", "residue");
    let mut b = vec![0xee; match sym::upto(2) { 0 => 40, 1 => 300, _ => 70000 }];
    b.iter_mut().enumerate().for_each(|(i, x)| *x = (i * 7 + 200) as u8);
    fn with<P: Parser + ParserExt>(b: &[u8], mut p: P) {
        match sym::upto(2) {
            0 => {
                let m = Model::far(b, &mut p, 2);
                step(&mut p, m, true)
            }
            1 => {
                let m = Model::deep(b, &mut p, 9);
                step(&mut p, m, true)
            }
            _ => {
                // a wide window, closed too early
                let w = b.len() - sym::upto(1);
                let k = match sym::upto(3) { 0 => 0, 1 => w / 2, 2 => w.saturating_sub(256), _ => w - 1 };
                let ok = p.set_fit(w).is_ok() && p.skip_exactly(k).is_ok();
                sym::check(ok, "what is there is refused");
                match p.enforce_target() {
                    Err(ParseError::Window(WindowError::CloseWithResidue { residual })) => {
                        sym::cover("residue");
                        sym::check(residual == w - k, "the residue reported is not the number of unconsumed bytes")
                    }
                    _ => sym::check(false, "closing early is reported as something else"),
                }
            }
        }
    }
    match sym::upto(2) {
        0 => with(&b, ByteParser::from_buffer((&b[..]).into())),
        1 => with(&b, MemoParser::from_buffer((&b[..]).into())),
        _ => with(&b, SliceParser::from_buffer((&b[..]).into())),
    }
}
/// many bytes at fault: all of them reported
fn far_bytes() {
    want!("unending", "told");
    let n = match sym::upto(3) { 0 => 11, 1 => 40, 2 => 257, _ => 2050 };
    match sym::upto(1) {
        0 => {
            let mut b = ends(n);
            b.iter_mut().for_each(|x| *x |= 0x80);
            let e = if sym::upto(1) == 0 { parse::<N>(&b).0.err() } else { parse::<Z>(&b).0.err() };
            match e {
                Some(ParseError::Token(TokenError::NonTerminating(v))) => {
                    sym::cover("unending");
                    sym::check(same(&v, &b), "the bytes reported are not the ones that failed to end")
                }
                _ => sym::check(false, "a number without an end is reported as something else"),
            }
        }
        _ => {
            let v: Vec<u8> = (0..n.min(300)).map(|i| (i * 37 + 11) as u8).collect();
            let t = match sym::upto(1) { 0 => ParseError::from(TokenError::NonTerminating(v.clone())).to_string(), _ => ParseError::from(TokenError::NonNullPaddingByte { padding: v.clone() }).to_string() };
            sym::cover("told");
            let w = spelled(&v);
            let t = t.as_bytes();
            // the text may lead with more; what it spells starts somewhere
            let mut ok = false;
            for i in 0..t.len().saturating_sub(w.len() - 1) {
                ok |= t[i..i + w.len()] == w[..];
            }
            sym::check(ok, "the text does not show the bytes at fault");
        }
    }
}
fn far_padding() {
    want!("padding");
    fn pad<const K: usize>() {
        let b = ends(K + 1);
        match parse::<Padded<u8, K>>(&b).0 {
            Ok(_) => sym::check(false, "padding with a non-zero byte was let through"),
            Err(ParseError::Token(TokenError::NonNullPaddingByte { padding })) => {
                sym::cover("padding");
                sym::check(same(&padding, &b[1..]), "the padding reported is not the one read")
            }
            Err(_) => sym::check(false, "non-nil padding is reported as something else"),
        }
    }
    match sym::upto(2) { 0 => pad::<12>(), 1 => pad::<67>(), _ => pad::<300>() }
}
/// many members: all of them named as legal
cstyle!(Long8, u8, { A0 = 3, A1 = 10, A2 = 17, A3 = 24, A4 = 31, A5 = 38, A6 = 45, A7 = 52, A8 = 131, A9 = 138, A10 = 145, A11 = 152, A12 = 159, A13 = 166, A14 = 173, A15 = 180, A16 = 11, A17 = 139, A18 = 255, A19 = 0 });
cstyle!(Long16, u16, { B0 = 3, B1 = 259, B2 = 515, B3 = 771, B4 = 1027, B5 = 65535, B6 = 0, B7 = 256, B8 = 128, B9 = 127, B10 = 32768, B11 = 131 });
fn many_tags() {
    want!("tag8", "tag16");
    match sym::upto(1) {
        0 => {
            let b = sym::vec(1);
            let legal = vec![3, 10, 17, 24, 31, 38, 45, 52, 131, 138, 145, 152, 159, 166, 173, 180, 11, 139, 255, 0];
            match parse::<Long8>(&b).0 {
                Ok(_) => {}
                Err(ParseError::Token(TokenError::InvalidTagU8(e))) => {
                    sym::cover("tag8");
                    sym::check(e == TagError::new(b[0], std::any::type_name::<Long8>(), Some(legal)), "the report on an illegal tag does not name the tag read, the type and the legal tags")
                }
                Err(_) => sym::check(false, "an illegal tag is reported as something else"),
            }
        }
        _ => {
            let b = sym::vec(2);
            let legal = vec![3, 259, 515, 771, 1027, 65535, 0, 256, 128, 127, 32768, 131];
            match parse::<Long16>(&b).0 {
                Ok(_) => {}
                Err(ParseError::Token(TokenError::InvalidTagU16(e))) => {
                    sym::cover("tag16");
                    sym::check(e == TagError::new(be(&b) as u16, std::any::type_name::<Long16>(), Some(legal)), "the report on an illegal tag does not name the tag read, the type and the legal tags")
                }
                Err(_) => sym::check(false, "an illegal tag is reported as something else"),
            }
        }
    }
}
/// what is wrong with the first byte
fn tokens() {
    want!("bool", "option", "tag8", "tag16", "tag30", "union");
    let b = sym::vec(4);
    match sym::upto(5) {
        0 => match parse::<bool>(&b).0 {
            Ok(x) => sym::check(b[0] == if x { 255 } else { 0 }, "a boolean was made of an illegal byte"),
            Err(ParseError::Token(TokenError::InvalidBoolean(x))) => {
                sym::cover("bool");
                sym::check(x == b[0], "the byte reported is not the one read")
            }
            Err(_) => sym::check(false, "an illegal boolean is reported as something else"),
        },
        1 => match parse::<Option<()>>(&b).0 {
            Ok(_) => {}
            Err(ParseError::Token(TokenError::InvalidTagU8(e))) => {
                sym::cover("option");
                sym::check(e == TagError::new(b[0], std::any::type_name::<Option<()>>(), Some(vec![0, 255])), "the report on an illegal option tag does not name the byte read, the type and the legal tags")
            }
            Err(_) => sym::check(false, "an illegal option is reported as something else"),
        },
        2 => match parse::<Color8>(&b).0 {
            Ok(_) => {}
            Err(ParseError::Token(TokenError::InvalidTagU8(e))) => {
                sym::cover("tag8");
                sym::check(e == TagError::new(b[0], std::any::type_name::<Color8>(), Some(vec![1, 7])), "the report on an illegal tag does not name the tag read, the type and the legal tags")
            }
            Err(_) => sym::check(false, "an illegal tag is reported as something else"),
        },
        3 => match parse::<Color16>(&b).0 {
            Ok(_) => {}
            Err(ParseError::Token(TokenError::InvalidTagU16(e))) => {
                sym::cover("tag16");
                sym::check(e == TagError::new(be(&b[..2]) as u16, std::any::type_name::<Color16>(), Some(vec![0, 258])), "the report on an illegal tag does not name the tag read, the type and the legal tags")
            }
            Err(_) => sym::check(false, "an illegal tag is reported as something else"),
        },
        4 => match parse::<Color30>(&b).0 {
            Ok(_) => {}
            Err(ParseError::Token(TokenError::InvalidTagU30(e))) => {
                sym::cover("tag30");
                sym::check(e == TagError::new(be(&b) as u32, std::any::type_name::<Color30>(), Some(vec![3, 66051])), "the report on an illegal tag does not name the tag read, the type and the legal tags")
            }
            Err(_) => sym::check(false, "an illegal tag is reported as something else"),
        },
        _ => match parse::<Shape>(&b).0 {
            Ok(_) => {}
            Err(ParseError::Token(TokenError::InvalidTagU8(e))) => {
                sym::cover("union");
                sym::check(e == TagError::new(b[0], std::any::type_name::<Shape>(), Some(vec![2, 200])), "the report on an illegal tag does not name the tag read, the type and the legal tags")
            }
            Err(_) => sym::check(false, "an illegal tag is reported as something else"),
        },
    }
}
cstyle!(Color8, u8, { Red = 1, Blue = 7 });
cstyle!(Color16, u16, { Red = 0, Blue = 258 });
cstyle!(Color30, u32, { Red = 3, Blue = 66051 });
data!(Shape, u8, shape, { 2 => Nothing, 200 => Dot(pub u8) });
fn conversions() {
    want!("refused", "ok");
    match sym::upto(2) {
        0 => {
            let x = sym::u8();
            match Color8::try_from(x) {
                Ok(c) => {
                    sym::cover("ok");
                    sym::check(c.get_tagval() == x, "a tag was converted to another member")
                }
                Err(e) => {
                    sym::cover("refused");
                    sym::check(e == TagError::new(x, std::any::type_name::<Color8>(), Some(vec![1, 7])), "the report on an illegal tag does not name it, the type and the legal tags")
                }
            }
        }
        1 => {
            let x = sym::u16();
            match Color16::try_from(x) {
                Ok(c) => {
                    sym::cover("ok");
                    sym::check(c.get_tagval() == x, "a tag was converted to another member")
                }
                Err(e) => sym::check(e == TagError::new(x, std::any::type_name::<Color16>(), Some(vec![0, 258])), "the report on an illegal tag does not name it, the type and the legal tags"),
            }
        }
        _ => {
            let x = sym::u32();
            match Color30::try_from(x) {
                Ok(c) => {
                    sym::cover("ok");
                    sym::check(c.get_tagval() == x, "a tag was converted to another member")
                }
                Err(e) => sym::check(e == TagError::new(x, std::any::type_name::<Color30>(), Some(vec![3, 66051])), "the report on an illegal tag does not name it, the type and the legal tags"),
            }
        }
    }
}
/// a number that never ends: everything that was read
fn unending(max: usize) {
    want!("unending");
    let n = sym::upto(max);
    let mut b = sym::vec(n);
    for i in 0..n {
        b[i] |= 0x80;
    }
    let e = if sym::bool() { parse::<N>(&b).0.err() } else { parse::<Z>(&b).0.err() };
    match e {
        Some(ParseError::Token(TokenError::NonTerminating(v))) => {
            sym::cover("unending");
            sym::check(same(&v, &b), "the bytes reported are not the ones that failed to end")
        }
        _ => sym::check(false, "a number without an end is reported as something else"),
    }
}
/// padding that is not nil, where that is checked
fn padding() {
    want!("padding");
    let b = sym::vec(4);
    match parse::<Padded<u8, 3>>(&b).0 {
        Ok(_) => sym::check(b[1] | b[2] | b[3] == 0, "padding with a non-zero byte was let through"),
        Err(ParseError::Token(TokenError::NonNullPaddingByte { padding })) => {
            sym::cover("padding");
            sym::check(b[1] | b[2] | b[3] != 0, "nil padding was refused");
            sym::check(same(&padding, &b[1..]), "the padding reported is not the one read")
        }
        Err(_) => sym::check(false, "non-nil padding is reported as something else"),
    }
}
/// a refused number is told apart by which end it passed, with that end
fn refused<I: tedium::int::Integral, const MIN: i32, const MAX: i32>()
where
    <I as TryFrom<i64>>::Error: Into<std::num::TryFromIntError> + std::fmt::Debug,
    <I as TryFrom<i32>>::Error: std::fmt::Debug,
{
    let x = sym::i32();
    let (lo, hi, v) = (MIN as i64, MAX as i64, x as i64);
    if let Err(e) = RangedInt::<I, MIN, MAX>::try_from_i32(x) {
        sym::cover("refused");
        match e {
            BoundsError::Underflow { min, val } => sym::check(v < lo && min == lo && val == v, "the range error reports other numbers"),
            // relative to the minimum, or absolute: either way consistent
            BoundsError::IllegalNegative { min, val } => sym::check(lo > 0 && v < lo && min == lo && (val == v - lo || val == v), "the range error reports other numbers"),
            BoundsError::Overflow { max, val } => {
                let abs = max == hi && val == v;
                let rel = lo > 0 && max == hi - lo && val == v - lo;
                sym::check(v > hi && (abs || rel), "the range error reports other numbers")
            }
            _ => sym::check(false, "a number out of range is reported as something else"),
        }
    } else {
        sym::check(lo <= v && v <= hi, "a number out of range was accepted")
    }
}
/// numbers out of range: the number and the bound
fn ranges() {
    want!("under", "over", "offset", "below", "float", "refused");
    match sym::upto(6) {
        4 => refused::<i8, -100, 100>(),
        5 => refused::<u8, 3, 200>(),
        6 => refused::<i32, { i32::MIN + 1 }, { i32::MAX - 1 }>(),
        0 => {
            let b = sym::vec(2);
            let x = be(&b) as u16 as i16 as i64;
            match parse::<RangedInt<i16, { -300 }, 1000>>(&b).0 {
                Ok(_) => {}
                Err(ParseError::External(ExternalError::IntRangeViolation(BoundsError::Underflow { min, val }))) => {
                    sym::cover("under");
                    sym::check(min == -300 && val == x, "the range error reports other numbers")
                }
                Err(ParseError::External(ExternalError::IntRangeViolation(BoundsError::Overflow { max, val }))) => {
                    sym::cover("over");
                    sym::check(max == 1000 && val == x, "the range error reports other numbers")
                }
                Err(_) => sym::check(false, "a number out of range is reported as something else"),
            }
        }
        1 => {
            let b = sym::vec(1);
            match parse::<RangedInt<u8, 500, 600>>(&b).0 {
                Ok(_) => {}
                Err(ParseError::External(ExternalError::IntRangeViolation(BoundsError::Overflow { max, val }))) => {
                    sym::cover("offset");
                    // relative to the minimum, or absolute: either way consistent
                    let rel = max == 100 && val == b[0] as i64;
                    let abs = max == 600 && val == 500 + b[0] as i64;
                    sym::check(rel || abs, "the range error reports other numbers")
                }
                Err(_) => sym::check(false, "a number out of range is reported as something else"),
            }
        }
        2 => {
            let x = sym::i32();
            match RangedInt::<u8, 3, 200>::try_from(x) {
                Ok(_) => {}
                Err(e) => {
                    sym::cover("below");
                    sym::check(x < 3 || x > 200, "a number in range was refused");
                    match e {
                        BoundsError::Underflow { min, val } => sym::check(x < 3 && min == 3 && val as i64 == x as i64, "the range error reports other numbers"),
                        BoundsError::Overflow { max, val } => sym::check(x > 200 && max == 200 && val as i64 == x as i64, "the range error reports other numbers"),
                        _ => sym::check(false, "a number out of range is reported as something else"),
                    }
                }
            }
        }
        _ => {
            let b = sym::vec(8);
            let x = f64::from_bits(be(&b));
            // [-2.0, 8.0]
            match parse::<RangedFloat<0xc000000000000000, 0x4020000000000000>>(&b).0 {
                Ok(_) => {}
                Err(ParseError::External(ExternalError::FloatRangeViolation(e))) => {
                    sym::cover("float");
                    match e {
                        BoundsError::Underflow { min, val } => sym::check(min == -2.0 && (val.to_bits() == x.to_bits() || x != x) && !(x >= -2.0), "the range error reports other numbers"),
                        BoundsError::Overflow { max, val } => sym::check(max == 8.0 && val.to_bits() == x.to_bits() && x > 8.0, "the range error reports other numbers"),
                        _ => sym::check(false, "a number out of range is reported as something else"),
                    }
                }
                Err(_) => sym::check(false, "a number out of range is reported as something else"),
            }
        }
    }
}
/// lengths and widths
fn sizes() {
    want!("refused");
    let n = sym::upto(6);
    let v = sym::vec(n);
    match sym::upto(8) {
        0 => wrong_width(FixedBytes::<3>::try_from_slice(&v[..]).err(), 3, n),
        1 => wrong_width(FixedString::<3>::try_from_bytes(&ascii(&v)).err(), 3, n),
        2 => wrong_width(FixedString::<3>::try_from(&ascii(&v)[..]).err(), 3, n),
        3 => too_long(LimSeq::<u8, 3>::try_from(v).err(), 3, n),
        4 => too_long(LimSeq::<u8, 3>::try_from(&v[..]).err(), 3, n),
        5 => too_long(FixSeq::<u8, 3>::try_from(v).err(), 3, n),
        6 => {
            // read: the first element too many
            let r = parse::<LimSeq<u8, 3>>(&v).0;
            match r {
                Ok(_) => sym::check(n <= 3, "a sequence beyond its limit was read"),
                Err(ParseError::External(ExternalError::LengthViolation(LengthError::TooLong { limit, actual }))) => {
                    sym::check(n > 3 && limit == 3 && actual == 4, "the length error reports other numbers")
                }
                Err(_) => sym::check(false, "too many elements are reported as something else"),
            }
        }
        7 => {
            let r = parse::<FixSeq<u8, 3>>(&v).0;
            match r {
                Ok(_) => sym::check(n >= 3, "a sequence short of its length was read"),
                Err(ParseError::External(ExternalError::LengthViolation(LengthError::WrongLength { exact, actual }))) => {
                    sym::check(n < 3 && exact == 3 && actual == n, "the length error reports other numbers")
                }
                Err(_) => sym::check(false, "too few elements are reported as something else"),
            }
        }
        _ => match FixSeq::<u8, 3>::try_from(&v[..]) {
            Ok(_) => sym::check(n <= 3, "a sequence beyond its length was made"),
            Err(LengthError::WrongLength { exact, actual }) => sym::check(n != 3 && exact == 3 && actual == n, "the length error reports other numbers"),
            Err(LengthError::TooLong { limit, actual }) => sym::check(n > 3 && limit == 3 && actual == n, "the length error reports other numbers"),
        },
    }
}
fn ascii(v: &[u8]) -> Vec<u8> {
    v.iter().map(|b| b & 0x7f).collect()
}
fn wrong_width(e: Option<WidthError>, w: usize, n: usize) {
    match e {
        None => sym::check(n == w, "a byte string of another width was made"),
        Some(WidthError::WrongWidth { exact, actual }) => {
            sym::cover("refused");
            sym::check(n != w && exact == w && actual == n, "the width error reports other numbers")
        }
        Some(_) => sym::check(false, "a wrong width is reported as something else"),
    }
}
fn too_long(e: Option<LengthError>, w: usize, n: usize) {
    match e {
        None => sym::check(n <= w, "a sequence beyond its limit was made"),
        Some(LengthError::TooLong { limit, actual }) => {
            sym::cover("refused");
            sym::check(n > w && limit == w && actual == n, "the length error reports other numbers")
        }
        Some(_) => sym::check(false, "too many elements are reported as something else"),
    }
}
/// a payload wider than its prefix can say
fn prefix() {
    want!("fits", "too wide");
    let over = sym::upto(1);
    let n = 254 + over + sym::upto(1);
    let d = Dynamic::<u8, Bytes>::new(Bytes::from_vec(vec![7; n]));
    match d.length_prefix() {
        Ok(x) => {
            sym::cover("fits");
            sym::check(n <= 255 && x as usize == n, "the prefix is not the width of the payload")
        }
        Err(WidthError::TooWide { limit, actual }) => {
            sym::cover("too wide");
            sym::check(n > 255 && limit == 255 && actual == n, "the width error reports other numbers")
        }
        Err(_) => sym::check(false, "a payload too wide is reported as something else"),
    }
}
/// the text of an error spells its numbers
fn text() {
    let (a, b, c) = (sym::upto(2) * 7, sym::upto(2) * 13, sym::upto(2) * 111);
    let has = |s: &str, n: usize| {
        // the number as a whole word
        let b = s.as_bytes();
        let w = n.to_string();
        let w = w.as_bytes();
        let digit = |i: usize| i < b.len() && b[i].is_ascii_digit();
        (0..b.len()).any(|i| i + w.len() <= b.len() && &b[i..i + w.len()] == w && !digit(i + w.len()) && (i == 0 || !digit(i - 1)))
    };
    let (e, ns): (ParseError, Vec<usize>) = match sym::upto(8) {
        0 => (WindowError::ConsumeWouldExceedLimit { offset: a, requested: b, limit: c }.into(), vec![a, b, c]),
        1 => (WindowError::OpenWouldExceedWindow { limit: a, request: b }.into(), vec![a, b]),
        2 => (WindowError::OpenWouldExceedBuffer { bytes_left: a, request: b }.into(), if a == 0 { vec![b] } else { vec![a, b] }),
        3 => (WindowError::CloseWithResidue { residual: a }.into(), vec![a]),
        4 => (WidthError::TooWide { limit: a, actual: b }.into(), vec![a, b]),
        5 => (WidthError::WrongWidth { exact: a, actual: b }.into(), vec![a, b]),
        6 => (LengthError::TooLong { limit: a, actual: b }.into(), vec![a, b]),
        7 => (LengthError::WrongLength { exact: a, actual: b }.into(), vec![a, b]),
        _ => (WindowError::OffsetOverflow { excess: a }.into(), vec![a]),
    };
    let s = e.to_string();
    for n in ns {
        sym::check(has(&s, n), "the text of an error leaves out one of its numbers");
    }
}
fn hexdigit(x: u8) -> u8 {
    if x < 10 { b'0' + x } else { b'a' + x - 10 }
}
fn holds(s: &[u8], w: &[u8]) -> bool {
    let mut r = w.is_empty();
    for i in 0..s.len() {
        if i + w.len() <= s.len() {
            r |= same(&s[i..i + w.len()], w);
        }
    }
    r
}
fn spelled(v: &[u8]) -> Vec<u8> {
    let mut w = Vec::with_capacity(2 * v.len());
    for b in v {
        w.push(hexdigit(b >> 4));
        w.push(hexdigit(b & 15));
    }
    w
}
/// some number in base 16 in `s`, introduced by 0x, is `x`
fn names(s: &[u8], x: u64) -> bool {
    let mut r = false;
    for i in 0..s.len() {
        if i + 2 < s.len() && s[i] == b'0' && s[i + 1] == b'x' {
            let (mut y, mut j) = (0u64, i + 2);
            while j < s.len() && (s[j].is_ascii_digit() || (s[j] >= b'a' && s[j] <= b'f')) {
                y = y << 4 | (s[j] as char).to_digit(16).unwrap_or(0) as u64;
                j += 1;
            }
            r |= j > i + 2 && y == x;
        }
    }
    r
}
/// the text of an error spells the bytes at fault
fn bytes_told() {
    match sym::upto(5) {
        0 => {
            let b = sym::u8();
            let t = TokenError::InvalidBoolean(b).to_string();
            sym::check(holds(t.as_bytes(), &spelled(&[b])), "the text does not show the byte at fault");
        }
        1 => {
            let v = sym::vec(sym::upto(3));
            let t = ParseError::from(TokenError::NonTerminating(v.clone())).to_string();
            sym::check(holds(t.as_bytes(), &spelled(&v)), "the text does not show the bytes at fault");
        }
        2 => {
            let v = sym::vec(sym::upto(3));
            let t = ParseError::from(TokenError::NonNullPaddingByte { padding: v.clone() }).to_string();
            sym::check(holds(t.as_bytes(), &spelled(&v)), "the text does not show the bytes at fault");
        }
        3 => {
            let b = sym::u8();
            let t = ParseError::from(TagError::new(b, "Kind", None)).to_string();
            sym::check(names(t.as_bytes(), b as u64) && holds(t.as_bytes(), b"Kind"), "the text does not name the tag and the type");
        }
        4 => {
            let b = match sym::upto(4) { 0 => 0, 1 => 15, 2 => 256, 3 => 0xabc, _ => 0xffff };
            let t = TokenError::InvalidTagU16(TagError::new(b, "Kind", Some(vec![1u16]))).to_string();
            sym::check(names(t.as_bytes(), b as u64) && holds(t.as_bytes(), b"Kind"), "the text does not name the tag and the type");
        }
        _ => {
            let b = match sym::upto(4) { 0 => 0, 1 => 15, 2 => 256, 3 => 0x12abcd, _ => 0x3fffffff };
            let t = TagError::<u32>::with_type::<Color30>(b, None).to_string();
            sym::check(names(t.as_bytes(), b as u64) && holds(t.as_bytes(), b"Color30"), "the text does not name the tag and the type");
        }
    }
}
/// the text of a range error spells value and bound; that of a wrapped error is its cause's
fn text_wrapped() {
    use tedium::error::HexConvError;
    use tedium::parse::cleanup::InvariantError;
    let (a, b) = (sym::upto(2) as i64 * 37 - 40, sym::upto(2) as i64 * 501);
    let (sa, sb) = (a.to_string(), b.to_string());
    let both = |t: &str| holds(t.as_bytes(), sa.as_bytes()) && holds(t.as_bytes(), sb.as_bytes());
    match sym::upto(9) {
        0 => sym::check(both(&BoundsError::Underflow { min: b, val: a }.to_string()), "the text leaves out a number"),
        1 => sym::check(both(&BoundsError::Overflow { max: a, val: b }.to_string()), "the text leaves out a number"),
        2 => sym::check(both(&BoundsError::InvalidBounds { min: b, max: a }.to_string()), "the text leaves out a number"),
        3 => sym::check(both(&BoundsError::IllegalNegative { min: b, val: a }.to_string()), "the text leaves out a number"),
        4 => {
            let t = ParseError::from(BoundsError::Overflow { max: a, val: b });
            sym::check(both(&t.to_string()) && both(&conv::error::DecodeError::from(t).to_string()), "the text leaves out a number");
        }
        5 => {
            static VALID: [usize; 2] = [37, 501];
            let t = WidthError::InvalidWidth { valid: &VALID, actual: 64 }.to_string();
            sym::check(holds(t.as_bytes(), b"37") && holds(t.as_bytes(), b"501") && holds(t.as_bytes(), b"64"), "the text leaves out a number");
        }
        6 => {
            let w = match sym::upto(1) { 0 => InvariantError::ErrorCaseUnexpected(WindowError::CloseWithResidue { residual: 501 }), _ => InvariantError::ErrorUnexpected(WindowError::CloseWithResidue { residual: 501 }.into()) };
            sym::check(holds(w.to_string().as_bytes(), b"501") && holds(format!("{:?}", w).as_bytes(), b"501"), "the text leaves out the cause");
            sym::check(holds(conv::error::DecodeError::from(w).to_string().as_bytes(), b"501"), "the text leaves out the cause");
        }
        7 => {
            let e = if sym::upto(1) == 0 { HexConvError::OddParity("0ag".to_string()) } else { HexConvError::NonHex("0ag".to_string()) };
            sym::check(holds(format!("{:?}", e).as_bytes(), b"0ag"), "the text leaves out the string at fault");
            let t = e.to_string();
            sym::check(holds(conv::error::DecodeError::from(e).to_string().as_bytes(), t.as_bytes()), "the text leaves out the cause");
        }
        8 => {
            let e = BoundsError::<i64>::from(u8::try_from(300u32).unwrap_err());
            let t = u8::try_from(300u32).unwrap_err().to_string();
            sym::check(holds(e.to_string().as_bytes(), t.as_bytes()), "the text leaves out the cause");
        }
        _ => {
            let t = ParseError::reify(Custom(7)).to_string();
            sym::check(holds(t.as_bytes(), b"custom 7"), "the text leaves out the cause");
        }
    }
}
#[derive(Debug, PartialEq, Clone, Copy)]
struct Custom(u8);
impl std::fmt::Display for Custom {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "custom {}", self.0)
    }
}
impl std::error::Error for Custom {}
type Dyn = dyn std::error::Error + 'static;
/// the cause at depth `k`
fn cause(e: &Dyn, k: usize) -> Option<&Dyn> {
    let mut e = e;
    for _ in 0..k {
        e = e.source()?;
    }
    Some(e)
}
fn caused<T: std::error::Error + PartialEq + 'static>(e: &Dyn, k: usize, t: &T) -> bool {
    match cause(e, k) {
        None => false,
        Some(x) => x.downcast_ref::<T>().map_or(false, |x| x == t) && x.source().is_none(),
    }
}
/// every error leads to what caused it
fn causes() {
    use conv::error::DecodeError;
    use tedium::parse::cleanup::InvariantError;
    // possibly wrapped once more
    macro_rules! at {
        ($e:expr, $k:expr, $t:expr) => {{
            let e: ParseError = $e.into();
            let t = $t;
            sym::check(caused(&e, $k, &t), "an error does not lead to its cause");
            match sym::upto(2) {
                0 => sym::check(caused(&DecodeError::from(e), $k + 1, &t), "an error does not lead to its cause"),
                1 => sym::check(caused(&DecodeError::from(InvariantError::ErrorUnexpected(e)), $k + 2, &t), "an error does not lead to its cause"),
                _ => sym::check(caused(&InvariantError::ErrorKindUnexpected(e), $k + 1, &t), "an error does not lead to its cause"),
            }
        }};
    }
    let (a, b) = (sym::usize(), sym::usize());
    match sym::upto(10) {
        0 => at!(WindowError::OpenWouldExceedWindow { limit: a, request: b }, 1, WindowError::OpenWouldExceedWindow { limit: a, request: b }),
        1 => at!(TokenError::InvalidBoolean(a as u8), 1, TokenError::InvalidBoolean(a as u8)),
        2 => at!(TagError::new(a as u8, "x", None), 2, TagError::new(a as u8, "x", None)),
        3 => at!(TagError::new(a as u16, "x", Some(vec![b as u16])), 2, TagError::new(a as u16, "x", Some(vec![b as u16]))),
        4 => at!(TagError::from(a as u32), 2, TagError::from(a as u32)),
        5 => at!(LengthError::TooLong { limit: a, actual: b }, 2, LengthError::TooLong { limit: a, actual: b }),
        6 => at!(WidthError::WrongWidth { exact: a, actual: b }, 2, WidthError::WrongWidth { exact: a, actual: b }),
        7 => at!(BoundsError::Overflow { max: a as i64, val: b as i64 }, 2, BoundsError::Overflow { max: a as i64, val: b as i64 }),
        8 => at!(BoundsError::Underflow { min: 1.5f64, val: -2.0f64 }, 2, BoundsError::Underflow { min: 1.5f64, val: -2.0f64 }),
        9 => {
            let e: ParseError = ParseError::reify(Custom(a as u8));
            sym::check(caused(&e, 2, &Custom(a as u8)), "an error does not lead to its cause");
        }
        _ => {
            let u = String::from_utf8(vec![0x80]).unwrap_err();
            at!(u.clone(), 2, u)
        }
    }
}
harnesses! {
    fn p40_windows() { windows(4, 2) }
    fn p40_tokens() { tokens() }
    fn p40_conversions() { conversions() }
    fn p40_unending() { unending(4) }
    fn p40_padding__chk() { padding() }
    fn p40_ranges() { ranges() }
    fn p40_sizes() { sizes() }
    fn p40_sizes__avf() { sizes() }
    fn p40_prefix() { prefix() }
    fn p40_text() { text() }
    fn p40_bytes_told() { bytes_told() }
    fn p40_text_wrapped() { text_wrapped() }
    fn p40_causes() { causes() }
    fn p40_far_windows() { far_windows() }
    fn p40_far_bytes() { far_bytes() }
    fn p40_far_padding__chk() { far_padding() }
    fn p40_many_tags() { many_tags() }
    fn p40t_windows() { windows(7, 3) }
    fn p40t_unending() { unending(12) }
}
