//! Byte strings and text without a length of their own take everything up to the end of their scope.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::parse::ParserExt;
use tedium::*;

/// what a value of the type is, as bytes
trait Raw: Decode + Encode {
    fn raw(&self) -> &[u8];
}
impl Raw for Bytes {
    fn raw(&self) -> &[u8] {
        self
    }
}
impl Raw for Vec<u8> {
    fn raw(&self) -> &[u8] {
        self
    }
}
impl Raw for String {
    fn raw(&self) -> &[u8] {
        self.as_bytes()
    }
}
/// some bytes read before, up to two windows open, then the value: the rest of the innermost scope
fn on<P: Parser + ParserExt, T: Raw>(mut p: P, b: &[u8], wins: usize) {
    want!("whole", "window");
    let pos = sym::upto(b.len());
    sym::check(p.skip_exactly(pos).is_ok(), "skipping within the buffer is refused");
    let mut end = b.len();
    let mut ends: Vec<usize> = Vec::new();
    let k = sym::upto(wins);
    for _ in 0..k {
        let w = sym::upto(end - pos);
        sym::check(p.set_fit(w).is_ok(), "a window that fits was refused");
        end = pos + w;
        ends.push(end);
    }
    sym::cover(if k > 0 { "window" } else { "whole" });
    match T::parse(&mut p) {
        Ok(x) => {
            sym::check(same(x.raw(), &b[pos..end]), "the value is not all the bytes of its scope");
            sym::check(same(&enc(&x), &b[pos..end]), "re-encoding differs from the bytes decoded");
        }
        Err(_) => sym::check(false, "bytes were refused"),
    }
    sym::check(p.remainder() == 0, "the scope is not consumed");
    for _ in 0..k {
        // outer windows may be wider; consume their rest
        let n = p.remainder();
        sym::check(p.skip_exactly(n).is_ok() && p.enforce_target().is_ok(), "a consumed window does not close");
    }
    // what follows the windows is still there, and only that
    let n = p.remainder();
    let first = ends.first().copied().unwrap_or(b.len());
    sym::check(n == b.len() - first, "the input is bounded by something else");
    let r = p.consume(n);
    sym::check(matches!(r, Ok(s) if same(s, &b[first..])), "what follows is another");
}
fn decodes<T: Raw>(len: usize, wins: usize, ascii: bool) {
    let b = sym::vec(sym::upto(len));
    if ascii {
        for i in 0..b.len() {
            sym::assume(b[i] < 128);
        }
    }
    match sym::upto(1) {
        0 => on::<_, T>(ByteParser::from_buffer((&b[..]).into()), &b, wins),
        _ => on::<_, T>(MemoParser::from_buffer((&b[..]).into()), &b, wins),
    }
}
/// the slicing parser counts from the window; checked without the final bound
fn sliced<T: Raw>(len: usize) {
    let b = sym::vec(sym::upto(len));
    for i in 0..b.len() {
        sym::assume(b[i] < 128);
    }
    let mut p = SliceParser::from_buffer((&b[..]).into());
    let w = sym::upto(b.len());
    sym::check(p.set_fit(w).is_ok(), "a window that fits was refused");
    let r = T::parse(&mut p);
    sym::check(matches!(&r, Ok(x) if same(x.raw(), &b[..w])), "the value is not all the bytes of its scope");
    sym::check(p.enforce_target().is_ok() && p.remainder() == b.len() - w, "the window does not close after its bytes");
    let r = T::parse(&mut p);
    sym::check(matches!(&r, Ok(x) if same(x.raw(), &b[w..])), "the value is not all the bytes of its scope");
    sym::check(p.remainder() == 0, "the scope is not consumed");
}
/// text: what is text is unchanged
fn text(len: usize) {
    want!("text", "not text");
    let b = sym::vec(sym::upto(len));
    let ok = std::str::from_utf8(&b).is_ok();
    sym::cover(if ok { "text" } else { "not text" });
    let (r, left) = parse::<String>(&b);
    match r {
        Ok(s) => {
            sym::check(left == 0, "the scope is not consumed");
            sym::check(std::str::from_utf8(s.as_bytes()).is_ok(), "a decoded text is not text");
            if ok {
                sym::check(same(s.as_bytes(), &b), "text was altered");
            } else {
                // the standard library's replacement of malformed sequences
                sym::check(same(s.as_bytes(), String::from_utf8_lossy(&b).as_bytes()), "ill-formed text is not what is left with its malformed parts replaced");
            }
        }
        Err(_) => sym::check(false, "text was refused"),
    }
}
/// long text that is well-formed but for two bytes
fn spoilt() {
    want!("text", "not text");
    let n = 3 + medium();
    let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let at = match sym::upto(2) { 0 => 0, 1 => n / 2, _ => n - 2 };
    b[at] = sym::u8();
    b[at + 1] = sym::u8();
    let (r, left) = parse::<String>(&b);
    let ok = std::str::from_utf8(&b).is_ok();
    sym::cover(if ok { "text" } else { "not text" });
    let m = String::from_utf8_lossy(&b);
    sym::check(left == 0 && r.map_or(false, |s| same(s.as_bytes(), m.as_bytes())), "text was altered beyond its malformed parts, or refused");
}
fn emits(n: usize) {
    let mut s = String::new();
    for _ in 0..n {
        s.push(match sym::upto(2) {
            0 => (sym::u8() & 0x7f) as char,
            1 => '\u{e9}',
            _ => '\u{1f980}',
        });
    }
    let b = s.as_bytes().to_vec();
    sym::check(same(&enc(&s), &b) && same(&s.to_bytes(), &b), "text is not its own bytes");
    sym::check(s.enc_len() == b.len() && s.estimate() == b.len(), "the length of text is not its number of bytes");
    let (r, _) = parse::<String>(&b);
    sym::check(matches!(r, Ok(t) if same(t.as_bytes(), &b)), "text did not survive");
    let v = sym::vec(n);
    sym::check(same(&enc(&v), &v) && same(&v.to_bytes(), &v) && v.enc_len() == n && v.estimate() == n, "bytes are not their own encoding");
    let y = Bytes::from_vec(v.clone());
    sym::check(same(&enc(&y), &v) && same(&y.to_bytes(), &v) && y.enc_len() == n && y.estimate() == n, "bytes are not their own encoding");
}
/// long scopes
fn far<T: Raw>(ascii: bool) {
    let n = long();
    let mut b = ends(n);
    if ascii {
        for i in 0..n {
            b[i] &= 0x7f;
        }
    }
    match sym::upto(1) {
        0 => far_on::<_, T>(ByteParser::from_buffer((&b[..]).into()), &b),
        _ => far_on::<_, T>(MemoParser::from_buffer((&b[..]).into()), &b),
    }
}
fn far_on<P: Parser + ParserExt, T: Raw>(mut p: P, b: &[u8]) {
    let pos = match sym::upto(2) { 0 => 0, 1 => 1, _ => b.len() / 2 };
    sym::check(p.skip_exactly(pos).is_ok(), "skipping within the buffer is refused");
    let mut end = b.len();
    let k = match sym::upto(2) { 0 => 0, 1 => 1, _ => 3 };
    for _ in 0..k {
        end -= 1;
        sym::check(p.set_fit(end - pos).is_ok(), "a window that fits was refused");
    }
    let r = T::parse(&mut p);
    sym::check(matches!(&r, Ok(x) if same(x.raw(), &b[pos..end])), "the value is not all the bytes of its scope");
    sym::check(matches!(&r, Ok(x) if same(&enc(x), &b[pos..end])), "re-encoding differs from the bytes decoded");
    sym::check(p.remainder() == 0, "the scope is not consumed");
    for i in 0..k {
        sym::check(p.enforce_target().is_ok(), "a consumed window does not close");
        if i + 1 < k {
            sym::check(p.skip_exactly(1).is_ok(), "the outer scope is not what follows");
        }
    }
    sym::check(p.remainder() == k.min(1), "the input is bounded by something else");
}
fn huge_scope() {
    let v = huge();
    let n = v.len();
    let y = match sym::upto(2) {
        0 => {
            let mut p = SliceParser::from_buffer((&v[..]).into());
            let r = Bytes::parse(&mut p);
            sym::check(p.remainder() == 0, "the scope is not consumed");
            r
        }
        1 => Vec::<u8>::parse(&mut MemoParser::from_buffer((&v[..]).into())).map(Bytes::from_vec),
        _ => Ok(Bytes::from_vec(v.clone())),
    };
    sym::check(matches!(&y, Ok(y) if same(y, &v)), "the value is not all the bytes of its scope");
    if let Ok(y) = y {
        let mut t: Vec<u8> = Vec::new();
        match sym::upto(3) {
            0 => sym::check(same(&enc(&y), &v), "bytes are not their own encoding"),
            1 => sym::check(same(&y.to_bytes(), &v), "bytes are not their own encoding"),
            2 => { y.write_to_vec(&mut t); sym::check(same(&t, &v), "bytes are not their own encoding") }
            _ => sym::check(y.enc_len() == n && y.estimate() == n, "the length of bytes is not their number"),
        }
    }
}
fn far_slice<T: Raw>() {
    let n = long();
    let mut b = ends(n);
    for i in 0..n {
        b[i] &= 0x7f;
    }
    let mut p = SliceParser::from_buffer((&b[..]).into());
    let w = edge(n);
    sym::check(p.set_fit(w).is_ok(), "a window that fits was refused");
    let r = T::parse(&mut p);
    sym::check(matches!(&r, Ok(x) if same(x.raw(), &b[..w])), "the value is not all the bytes of its scope");
    sym::check(p.enforce_target().is_ok() && p.remainder() == b.len() - w, "the window does not close after its bytes");
    let r = T::parse(&mut p);
    sym::check(matches!(&r, Ok(x) if same(x.raw(), &b[w..])), "the value is not all the bytes of its scope");
}
fn far_emits() {
    let n = long();
    let v = ends(n);
    sym::check(same(&enc(&v), &v) && same(&v.to_bytes(), &v) && v.enc_len() == n && v.estimate() == n, "bytes are not their own encoding");
    let y = Bytes::from_vec(v.clone());
    sym::check(same(&enc(&y), &v) && same(&y.to_bytes(), &v) && y.enc_len() == n && y.estimate() == n, "bytes are not their own encoding");
    let mut s = String::with_capacity(n + 2);
    for i in 0..n {
        s.push((b'a' + (i % 26) as u8) as char);
    }
    s.push('\u{e9}');
    let b = s.as_bytes().to_vec();
    sym::check(same(&enc(&s), &b) && same(&s.to_bytes(), &b) && s.enc_len() == n + 2 && s.estimate() == n + 2, "text is not its own bytes");
    let (r, _) = parse::<String>(&b);
    sym::check(matches!(r, Ok(t) if same(t.as_bytes(), &b)), "text did not survive");
}
/// whatever it begins and ends with, text is its own bytes
fn texts() {
    let s = crate::util::text();
    let b = s.as_bytes().to_vec();
    sym::check(same(&enc(&s), &b) && same(&s.to_bytes(), &b), "text is not its own bytes");
    sym::check(s.enc_len() == b.len() && s.estimate() == b.len(), "the length of text is not its number of bytes");
    let (r, left) = parse::<String>(&b);
    sym::check(left == 0 && matches!(r, Ok(t) if same(t.as_bytes(), &b)), "text did not survive");
}
harnesses! {
    fn p29_spoilt() { spoilt() }
    fn p29_texts() { texts() }
    fn p29_bytes() { decodes::<Bytes>(5, 2, false) }
    fn p29_vec() { decodes::<Vec<u8>>(5, 2, false) }
    fn p29_string() { decodes::<String>(4, 2, true) }
    fn p29_slice_bytes() { sliced::<Bytes>(5) }
    fn p29_slice_vec() { sliced::<Vec<u8>>(5) }
    fn p29_slice_string() { sliced::<String>(5) }
    fn p29_text() { text(4) }
    fn p29_emits() { emits(sym::upto(3)) }
    fn p29_bytes__rel() { decodes::<Bytes>(5, 2, false) }
    fn p29_text__rel() { text(3) }
    fn p29t_bytes() { decodes::<Bytes>(9, 3, false) }
    fn p29t_text() { text(5) }
    fn p29_huge() { huge_scope() }
    fn p29_far_bytes() { far::<Bytes>(false) }
    fn p29_far_vec() { far::<Vec<u8>>(false) }
    fn p29_far_string() { far::<String>(true) }
    fn p29_far_slice_bytes() { far_slice::<Bytes>() }
    fn p29_far_slice_vec() { far_slice::<Vec<u8>>() }
    fn p29_far_emits() { far_emits() }
}
