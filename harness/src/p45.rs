//! The offset tracker: any offsets, any limits, any windows, all of 64 bits.
use crate::{harnesses, sym, want};
use tedium::internal::offset::{ContextOffset, Index, IndexTracker};
use tedium::parse::error::{ParseError, WindowError};

fn index() {
    want!("moved", "refused");
    let (at, n, lim) = (sym::usize(), sym::usize(), sym::usize());
    sym::assume(at <= lim);
    let mut ix = Index::from(at);
    sym::check(Index::new().to_usize() == 0 && Index::default() == Index::new(), "a fresh index is not 0");
    sym::check(ix.to_usize() == at && *ix.as_ref() == at && usize::from(ix) == at, "an index is another number than it was given");
    let (old, ok) = ix.increment_checked(n, lim);
    sym::check(old == at, "the index before the step is misreported");
    let fits = n <= lim - at;
    sym::check(ok == fits, "a step is taken or refused wrongly");
    if ok {
        sym::cover("moved");
        sym::check(ix.to_usize() == at + n, "a step of another size than asked for");
    } else {
        sym::cover("refused");
        sym::check(ix.to_usize() == at, "a refused step moved the index");
    }
}
fn order() {
    let (a, b) = (sym::usize(), sym::usize());
    let (x, y) = (Index::from(a), Index::from(b));
    sym::check((x == y) == (a == b) && (x < y) == (a < b) && x.cmp(&y) == a.cmp(&b), "indices do not compare as numbers");
}
struct M {
    abs: usize,
    cur: usize,
    tgt: Vec<usize>,
}
impl M {
    fn lim(&self) -> usize {
        match self.tgt.last() {
            Some(t) => *t,
            None => self.abs,
        }
    }
    fn agree(&self, c: &ContextOffset) {
        sym::check(c.index() == self.cur, "the offset is not where the steps taken lead");
        sym::check(c.limit() == self.lim(), "the limit is not that of the innermost window");
        sym::check(c.absolute_limit() == self.abs, "the absolute limit changed");
        sym::check(c.rem() == self.lim().wrapping_sub(self.cur), "the remainder is not what lies up to the limit");
    }
}
/// any `k` operations, the last one by any amount
fn steps(k: usize, abs: usize) {
    if k > 3 {
        want!("moved", "refused", "opened", "too wide for the window", "closed", "left over", "no window");
    }
    let mut m = M { abs, cur: 0, tgt: Vec::with_capacity(8) };
    let mut c = ContextOffset::with_limit(abs);
    m.agree(&c);
    for i in 1..=k {
        let n = if i < k { sym::u8() as usize } else { sym::usize() };
        match sym::upto(3) {
            0 => {
                let (old, ok) = c.advance(n);
                sym::check(old == m.cur, "the offset before the step is misreported");
                let fits = n <= m.lim().wrapping_sub(m.cur);
                if fits {
                    m.cur = m.cur.wrapping_add(n);
                }
                sym::check(ok == fits, "a step is taken or refused wrongly");
                if fits { sym::cover("moved") } else { sym::cover("refused") }
            }
            1 => {
                match c.set_fit(n) {
                    Ok(()) => {
                        sym::cover("opened");
                        sym::check(n <= m.lim().wrapping_sub(m.cur), "a window wider than what is left was opened");
                        m.tgt.push(m.cur.wrapping_add(n))
                    }
                    Err(ParseError::Window(WindowError::OpenWouldExceedBuffer { bytes_left, request })) => {
                        sym::cover("too wide for the buffer");
                        sym::check(n > m.abs.wrapping_sub(m.cur) && bytes_left == m.abs.wrapping_sub(m.cur) && request == n, "a window was refused wrongly")
                    }
                    Err(ParseError::Window(WindowError::OpenWouldExceedWindow { limit, request })) => {
                        sym::cover("too wide for the window");
                        sym::check(n > m.lim().wrapping_sub(m.cur) && limit == m.lim().wrapping_sub(m.cur) && request == n, "a window was refused wrongly")
                    }
                    Err(_) => sym::check(false, "a window was refused for another reason"),
                }
            }
            2 => match c.enforce_target() {
                Ok(()) => {
                    sym::cover("closed");
                    sym::check(m.tgt.len() > 0 && m.lim() == m.cur, "a window was closed that is not used up");
                    m.tgt.pop();
                }
                Err(ParseError::Window(WindowError::CloseWithoutWindow)) => {
                    sym::cover("no window");
                    sym::check(m.tgt.is_empty(), "a window was not seen")
                }
                Err(ParseError::Window(WindowError::CloseWithResidue { residual })) => {
                    sym::cover("left over");
                    sym::check(m.tgt.len() > 0 && residual != 0 && residual == m.lim().wrapping_sub(m.cur), "what is left in a window is misreported")
                }
                Err(_) => sym::check(false, "a window was kept open for another reason"),
            },
            _ => match c.test_target() {
                Ok(at) => sym::check(at == (m.tgt.len() > 0 && m.lim() == m.cur), "whether a window is used up is misreported"),
                Err(_) => sym::check(false, "testing a window failed"),
            },
        }
        m.agree(&c);
    }
}
harnesses! {
    fn p45_index__exp() { index() }
    fn p45_order__exp() { order() }
    fn p45_any1__exp() { steps(1, sym::usize()) }
    fn p45_any2__exp() { steps(2, sym::usize()) }
    fn p45_few4__exp() { steps(4, sym::u16() as usize) }
    fn p45_top4__exp() { steps(4, usize::MAX - sym::u8() as usize) }
    fn p45t_few5__exp() { steps(5, sym::u16() as usize) }
}
