//! Decoding bytes from anywhere: a value or an error, never a panic, never memory out of proportion.
//! Panics, out-of-bounds accesses, endless loops and oversized allocations are found by the engine itself.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::parse::cleanup::LeftoverState;
use tedium::parse::ParserExt;
use tedium::*;

fn finish<P: Parser, T: Decode>(mut p: P, n: usize) {
    let r = T::parse(&mut p);
    let left = p.remainder();
    sym::check(left <= n, "more input is left than there was");
    match r {
        Ok(_) => {
            sym::cover("decoded");
            let c = p.cleanup();
            sym::check(matches!(c, Ok(l) if l.len() == left), "a finished parse left something else than the unread input");
        }
        Err(e) => {
            sym::cover("refused");
            let _ = p.cleanup();
        }
    }
}
/// any bytes, any of the three parsers, and the one-call entry point
fn any<T: Decode>(len: usize) {
    want!("decoded");
    let b = sym::vec(sym::upto(len));
    match sym::upto(3) {
        0 => finish::<ByteParser, T>(ByteParser::from_buffer((&b[..]).into()), b.len()),
        1 => finish::<MemoParser, T>(MemoParser::from_buffer((&b[..]).into()), b.len()),
        2 => finish::<SliceParser, T>(SliceParser::from_buffer((&b[..]).into()), b.len()),
        _ => match T::try_decode::<_, ByteParser>(b) {
            Ok(_) => sym::cover("decoded"),
            Err(_) => sym::cover("refused"),
        },
    }
}
fn any_refusable<T: Decode>(len: usize) {
    want!("refused");
    any::<T>(len)
}
/// a length claim of any size in front of a few bytes
fn claims<S: tedium::dynamic::LenPref, T: Decode>(w: usize, len: usize) {
    want!("decoded", "refused");
    let b = sym::vec(w + len);
    match sym::upto(2) {
        0 => finish::<ByteParser, Dynamic<S, T>>(ByteParser::from_buffer((&b[..]).into()), b.len()),
        1 => finish::<MemoParser, Dynamic<S, T>>(MemoParser::from_buffer((&b[..]).into()), b.len()),
        _ => finish::<SliceParser, Dynamic<S, T>>(SliceParser::from_buffer((&b[..]).into()), b.len()),
    }
}
cstyle!(Color, u16, { Red = 1, Green = 300, Blue = 65535 });
data!(Shape, u8, shape, {
    0 => Nothing,
    1 => Dot(pub u8, pub u16),
    2 => Blob { pub len: u8, pub data: Dynamic<u8, Bytes> },
    9 => Num(pub N),
    255 => Rest(pub Bytes),
});
#[derive(Decode)]
struct Rec {
    a: u8,
    b: Option<u16>,
    c: Dynamic<u8, Sequence<bool>>,
    d: VPadded<Bytes, 2>,
    e: u16,
}
/// a list that refers to itself
#[derive(Debug)]
struct Chain(u8, Option<AutoBox<Chain>>);
impl Decode for Chain {
    fn parse<P: Parser>(p: &mut P) -> tedium::parse::ParseResult<Self> {
        Ok(Chain(u8::parse(p)?, Option::<AutoBox<Chain>>::parse(p)?))
    }
}
type U30 = u30;
/// the parser's own operations, given any number as a length
#[inline(never)]
fn ops<P: ParserExt>(mut p: P, n: usize) {
    for _ in 0..2 {
        let k = sym::usize();
        let before = p.remainder();
        let ok = match sym::upto(8) {
            0 => p.take_dynamic(k).map(|v| v.len() == k).unwrap_or(true),
            1 => p.consume(k).map(|v| v.len() == k).unwrap_or(true),
            2 => p.skip_exactly(k).is_ok() || p.remainder() <= before,
            3 => p.skip(k).map(|m| m <= before).unwrap_or(true),
            4 => p.set_fit(k).is_ok() == (k <= before),
            5 => p.take_fixed::<3>().is_ok() == (before >= 3),
            6 => p.take_self_terminating(|b| b == 0).map(|v| v.len() <= before).unwrap_or(true),
            7 => p.skip_dynamic::<u16>().map(|m| m <= before).unwrap_or(true),
            _ => {
                let _ = p.test_target();
                let _ = p.enforce_target();
                true
            }
        };
        sym::check(ok && p.remainder() <= n, "a refused or impossible length was honoured");
        if p.remainder() < before {
            sym::cover("decoded")
        } else {
            sym::cover("refused")
        }
    }
    let _ = p.cleanup();
}
fn any_ops(len: usize) {
    want!("decoded", "refused");
    let b = sym::vec(sym::upto(len));
    match sym::upto(2) {
        0 => ops(ByteParser::from_buffer((&b[..]).into()), b.len()),
        1 => ops(MemoParser::from_buffer((&b[..]).into()), b.len()),
        _ => ops(SliceParser::from_buffer((&b[..]).into()), b.len()),
    }
}
/// long inputs from outside
fn far<T: Decode>() {
    want!("decoded");
    let b = ends(long());
    match sym::upto(3) {
        0 => finish::<ByteParser, T>(ByteParser::from_buffer((&b[..]).into()), b.len()),
        1 => finish::<MemoParser, T>(MemoParser::from_buffer((&b[..]).into()), b.len()),
        2 => finish::<SliceParser, T>(SliceParser::from_buffer((&b[..]).into()), b.len()),
        _ => match T::try_decode::<_, ByteParser>(b) {
            Ok(_) => sym::cover("decoded"),
            Err(_) => sym::cover("refused"),
        },
    }
}
/// a long run of bytes that all ask for more
fn endless<T: Decode>(byte: u8) {
    let n = wide();
    let mut b = vec![byte; n];
    b[n - 1] = sym::u8();
    let (_, left) = parse::<T>(&b);
    sym::check(left <= n, "more input is left than there was");
}
harnesses! {
    fn p18_ops() { any_ops(4) }
    fn p18_ops__rel() { any_ops(3) }
    fn p18_unit() { any::<()>(2) }
    fn p18_bool() { any_refusable::<bool>(2) }
    fn p18_u64() { any_refusable::<u64>(9) }
    fn p18_f64() { any_refusable::<f64>(9) }
    fn p18_u30() { any_refusable::<U30>(5) }
    fn p18_i31() { any_refusable::<i31>(5) }
    fn p18_ranged() { any_refusable::<RangedInt<u16, 100000, 100500>>(3) }
    fn p18_float() { any_refusable::<RangedFloat<0, { 1.0f64.to_bits() }>>(9) }
    fn p18_option() { any_refusable::<Option<Option<u16>>>(5) }
    fn p18_nullable() { any_refusable::<Nullable<u16>>(3) }
    fn p18_fixed() { any_refusable::<FixedBytes<4>>(5) }
    fn p18_fixstring() { any_refusable::<FixedString<3>>(4) }
    fn p18_bytes() { any::<Bytes>(6) }
    fn p18_vec() { any::<Vec<u8>>(6) }
    fn p18_string() { any::<String>(3) }
    fn p18_n() { any_refusable::<N>(8) }
    fn p18_z() { any_refusable::<Z>(8) }
    fn p18_n_big() { any_refusable::<N>(18) }
    fn p18_z_big() { any_refusable::<Z>(18) }
    fn p18_padded() { any_refusable::<Padded<u16, 3>>(6) }
    fn p18_padded_var() { any_refusable::<Padded<N, 3>>(7) }
    fn p18_padded_rest() { want!("refused"); let b = sym::vec(sym::upto(5)); let (r, _) = parse::<Padded<Bytes, 3>>(&b); if r.is_err() { sym::cover("refused") } }
    fn p18_padded__chk() { any_refusable::<Padded<u16, 3>>(6) }
    fn p18_vpadded() { any_refusable::<VPadded<Bytes, 3>>(6) }
    fn p18_vpadded_big() { want!("refused"); let b = sym::vec(sym::upto(3)); let (r, _) = parse::<VPadded<Bytes, { usize::MAX }>>(&b); sym::check(r.is_err(), "impossible padding was accepted"); sym::cover("refused") }
    fn p18_seq() { any_refusable::<Sequence<u16>>(7) }
    fn p18_seq_dyn() { any_refusable::<Sequence<Dynamic<u8, Bytes>>>(5) }
    fn p18_seq_n() { any_refusable::<Sequence<N>>(5) }
    fn p18_lim() { any_refusable::<LimSeq<u16, 2>>(6) }
    fn p18_fix() { any_refusable::<FixSeq<u16, 2>>(6) }
    fn p18_lim_n__avf() { any_refusable::<LimSeq<N, 2>>(5) }
    fn p18_fix_n__avf() { any_refusable::<FixSeq<N, 2>>(5) }
    fn p18_fix__avf() { any_refusable::<FixSeq<Dynamic<u8, Bytes>, 2>>(5) }
    fn p18_cstyle() { any_refusable::<Color>(3) }
    fn p18_data() { any_refusable::<Shape>(5) }
    fn p18_record() { any_refusable::<Rec>(8) }
    fn p18_chain() { any_refusable::<Chain>(8) }
    fn p18_nested() { any_refusable::<Dynamic<u8, Dynamic<u16, Dynamic<U30, Bytes>>>>(9) }
    fn p18_claims_u8() { claims::<u8, Bytes>(1, 4) }
    fn p18_claims_u16() { claims::<u16, Bytes>(2, 4) }
    fn p18_claims_u30() { claims::<U30, Bytes>(4, 4) }
    fn p18_claims_seq() { claims::<U30, Sequence<u16>>(4, 4) }
    fn p18_claims_n() { claims::<U30, N>(4, 3) }
    fn p18_claims_string() { claims::<U30, String>(4, 2) }
    fn p18_claims_u30__rel() { claims::<U30, Bytes>(4, 4) }
    fn p18_claims_seq__rel() { claims::<U30, Sequence<u16>>(4, 4) }
    fn p18_vpadded__rel() { any_refusable::<VPadded<Bytes, 3>>(6) }
    fn p18_nested__rel() { any_refusable::<Dynamic<u8, Dynamic<u16, Dynamic<U30, Bytes>>>>(9) }
    fn p18_record__rel() { any_refusable::<Rec>(8) }
    fn p18_n__rel() { any_refusable::<N>(8) }
    fn p18_z__rel() { any_refusable::<Z>(8) }
    fn p18_data__ccp() { any_refusable::<Shape>(5) }
    fn p18_record__ccp() { any_refusable::<Rec>(8) }
    fn p18t_record() { any_refusable::<Rec>(11) }
    fn p18t_data() { any_refusable::<Shape>(8) }
    fn p18t_seq_dyn() { any_refusable::<Sequence<Dynamic<u8, Bytes>>>(8) }
    fn p18t_string() { any::<String>(5) }
    fn p18t_chain() { any_refusable::<Chain>(14) }
    fn p18_far_bytes() { far::<Bytes>() }
    fn p18_far_seq() { far::<Sequence<u16>>() }
    fn p18_far_lim() { far::<LimSeq<u8, 300>>() }
    fn p18_far_fix() { far::<FixSeq<u16, 4>>() }
    fn p18_far_fixed() { far::<FixedBytes<15>>() }
    fn p18_far_padded() { far::<Padded<u16, 3>>() }
    fn p18_far_vpadded() { far::<VPadded<Bytes, 3>>() }
    fn p18_far_dyn() { far::<Dynamic<u8, Bytes>>() }
    fn p18_far_dyn_seq() { far::<Dynamic<u8, Sequence<u8>>>() }
    fn p18_endless_n() { endless::<N>(0xff) }
    fn p18_endless_z() { endless::<Z>(0xff) }
    fn p18_endless_chain() { endless::<Sequence<Option<bool>>>(0xff) }
    fn p18_endless_dyn() { endless::<Sequence<Dynamic<u8, Bytes>>>(0) }
}
