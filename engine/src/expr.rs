//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Sym(u32),
    Bin(Op, E, E),
    Ite(E, E, E),
    Ext(E, u16),
    ZExt(E),
    SExt(E),
}
use Node::*;

pub struct Cx {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    /// bits known to be zero
    pub kz: Vec<u128>,
    /// free symbols (bit 127 stands for every symbol numbered 127 or above)
    pub vars: Vec<u128>,
    map: HashMap<(Node, u16), E, FastHash>,
}

#[derive(Clone, Copy, Default)]
pub struct FastHash;
pub struct FH(u64);
impl std::hash::BuildHasher for FastHash {
    type Hasher = FH;
    fn build_hasher(&self) -> FH {
        FH(0x9E3779B97F4A7C15)
    }
}
impl std::hash::Hasher for FH {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0xff51afd7ed558ccd);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type FMap<K, V> = HashMap<K, V, FastHash>;

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext_c(v: u128, w: u16) -> i128 {
    if w == 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

static mut CX: *mut Cx = std::ptr::null_mut();
pub fn cx() -> &'static mut Cx {
    unsafe { &mut *CX }
}
pub fn init() {
    let mut c = Cx {
        nodes: vec![],
        width: vec![],
        kz: vec![],
        vars: vec![],
        map: HashMap::default(),
    };
    for i in 0..256u128 {
        c.mk(Const(i), 8);
    }
    unsafe { CX = Box::into_raw(Box::new(c)) }
}

pub fn w(e: E) -> u16 {
    cx().width[e as usize]
}
pub fn node(e: E) -> Node {
    cx().nodes[e as usize]
}
pub fn kz(e: E) -> u128 {
    cx().kz[e as usize]
}
pub fn vars(e: E) -> u128 {
    cx().vars[e as usize]
}
pub fn umax(e: E) -> u128 {
    !kz(e) & mask(w(e))
}
pub fn cst(e: E) -> Option<u128> {
    match node(e) {
        Const(v) => Some(v),
        _ => None,
    }
}
pub fn c(v: u128, wd: u16) -> E {
    debug_assert!(wd >= 1 && wd <= 128, "width {}", wd);
    cx().mk(Const(v & mask(wd)), wd)
}
pub fn c64(v: u64) -> E {
    c(v as u128, 64)
}
pub fn tt() -> E {
    c(1, 1)
}
pub fn ff() -> E {
    c(0, 1)
}
pub fn sym(id: u32, wd: u16) -> E {
    cx().mk(Sym(id), wd)
}

impl Cx {
    fn mk(&mut self, n: Node, wd: u16) -> E {
        if let Some(&e) = self.map.get(&(n, wd)) {
            return e;
        }
        let m = mask(wd);
        let k = |e: E| self.kz[e as usize];
        let (kz, vars) = match n {
            Const(v) => (!v & m, 0),
            Sym(i) => (0, 1u128 << i.min(127)),
            Bin(op, a, b) => {
                let vs = self.vars[a as usize] | self.vars[b as usize];
                let aw = self.width[a as usize];
                let z = match op {
                    Op::And => k(a) | k(b),
                    Op::Or | Op::Xor => k(a) & k(b),
                    Op::Concat => (k(a) << self.width[b as usize]) | k(b),
                    Op::Add => {
                        let am = !k(a) & m;
                        let bm = !k(b) & m;
                        let top = am | bm;
                        let lz = 128 - (top.leading_zeros());
                        // low common zero bits are kept
                        let tz = top.trailing_zeros().min(127);
                        let lo = (1u128 << tz) - 1;
                        let hi = if lz + 1 >= wd as u32 { 0 } else { m & !((1u128 << (lz + 1)) - 1) };
                        (lo & m) | hi
                    }
                    Op::Mul => {
                        let am = !k(a) & m;
                        let bm = !k(b) & m;
                        let hi_bits = (128 - am.leading_zeros()) + (128 - bm.leading_zeros());
                        let tz = (am.trailing_zeros() + bm.trailing_zeros()).min(wd as u32 - 1);
                        let lo = if am == 0 || bm == 0 { m } else { (1u128 << tz) - 1 };
                        let hi = if hi_bits >= wd as u32 { 0 } else { m & !((1u128 << hi_bits) - 1) };
                        lo | hi
                    }
                    Op::UDiv | Op::LShr => {
                        let am = !k(a) & m;
                        let bits = 128 - am.leading_zeros();
                        if bits >= wd as u32 { 0 } else { m & !((1u128 << bits) - 1) }
                    }
                    Op::URem => {
                        let am = !k(a) & m;
                        let bm = !k(b) & m;
                        let bits = (128 - am.leading_zeros()).min(128 - bm.leading_zeros());
                        if bits >= wd as u32 { 0 } else { m & !((1u128 << bits) - 1) }
                    }
                    _ => {
                        let _ = aw;
                        0
                    }
                };
                (z, vs)
            }
            Ite(c, a, b) => (
                k(a) & k(b),
                self.vars[c as usize] | self.vars[a as usize] | self.vars[b as usize],
            ),
            Ext(a, lo) => ((k(a) >> lo) & m, self.vars[a as usize]),
            ZExt(a) => (k(a) | (m & !mask(self.width[a as usize])), self.vars[a as usize]),
            SExt(a) => {
                let aw = self.width[a as usize];
                let sb = (k(a) >> (aw - 1)) & 1 == 1;
                (
                    if sb { k(a) | (m & !mask(aw)) } else { k(a) & mask(aw - 1) },
                    self.vars[a as usize],
                )
            }
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.width.push(wd);
        self.kz.push(kz);
        self.vars.push(vars);
        self.map.insert((n, wd), e);
        e
    }
}

pub fn fold(op: Op, x: u128, y: u128, wd: u16) -> u128 {
    let m = mask(wd);
    let sx = sext_c(x, wd);
    let sy = sext_c(y, wd);
    (match op {
        Op::Add => x.wrapping_add(y),
        Op::Sub => x.wrapping_sub(y),
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            if y == 0 {
                if sx < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx.wrapping_div(sy) as u128
            }
        }
        Op::SRem => {
            if y == 0 {
                x
            } else {
                sx.wrapping_rem(sy) as u128
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= wd as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= wd as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            if y >= wd as u128 {
                if sx < 0 {
                    m
                } else {
                    0
                }
            } else {
                (sx >> y) as u128
            }
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Slt => (sx < sy) as u128,
        Op::Concat => unreachable!(),
    }) & m
}

pub fn not(a: E) -> E {
    debug_assert_eq!(w(a), 1);
    bin(Op::Xor, a, tt())
}
pub fn and(a: E, b: E) -> E {
    bin(Op::And, a, b)
}
pub fn or(a: E, b: E) -> E {
    bin(Op::Or, a, b)
}
pub fn eq(a: E, b: E) -> E {
    bin(Op::Eq, a, b)
}
pub fn add(a: E, b: E) -> E {
    bin(Op::Add, a, b)
}
pub fn sub(a: E, b: E) -> E {
    bin(Op::Sub, a, b)
}
pub fn ult(a: E, b: E) -> E {
    bin(Op::Ult, a, b)
}
pub fn ule(a: E, b: E) -> E {
    not(ult(b, a))
}
pub fn slt(a: E, b: E) -> E {
    bin(Op::Slt, a, b)
}
pub fn sle(a: E, b: E) -> E {
    not(slt(b, a))
}
pub fn trunc(a: E, wd: u16) -> E {
    ext(a, 0, wd)
}
pub fn zext(a: E, wd: u16) -> E {
    let aw = w(a);
    if aw == wd {
        return a;
    }
    assert!(aw < wd);
    match node(a) {
        Const(v) => c(v, wd),
        ZExt(b) => zext(b, wd),
        Ite(cc, x, y) if cst(x).is_some() && cst(y).is_some() => ite(cc, zext(x, wd), zext(y, wd)),
        _ => cx().mk(ZExt(a), wd),
    }
}
pub fn sext(a: E, wd: u16) -> E {
    let aw = w(a);
    if aw == wd {
        return a;
    }
    assert!(aw < wd);
    if (kz(a) >> (aw - 1)) & 1 == 1 {
        return zext(a, wd);
    }
    match node(a) {
        Const(v) => c(sext_c(v, aw) as u128, wd),
        SExt(b) => sext(b, wd),
        Ite(cc, x, y) if cst(x).is_some() && cst(y).is_some() => ite(cc, sext(x, wd), sext(y, wd)),
        _ => cx().mk(SExt(a), wd),
    }
}
pub fn ext(a: E, lo: u16, wd: u16) -> E {
    let aw = w(a);
    if lo == 0 && wd == aw {
        return a;
    }
    assert!(lo + wd <= aw, "ext {} {} of {}", lo, wd, aw);
    // entirely known zero
    if (kz(a) >> lo) & mask(wd) == mask(wd) {
        return c(0, wd);
    }
    match node(a) {
        Const(v) => c(v >> lo, wd),
        Ext(b, l2) => ext(b, l2 + lo, wd),
        ZExt(b) => {
            let bw = w(b);
            if lo >= bw {
                c(0, wd)
            } else if lo + wd <= bw {
                ext(b, lo, wd)
            } else {
                zext(ext(b, lo, bw - lo), wd)
            }
        }
        SExt(b) => {
            let bw = w(b);
            if lo + wd <= bw {
                ext(b, lo, wd)
            } else if lo < bw {
                sext(ext(b, lo, bw - lo), wd)
            } else {
                sext(ext(b, bw - 1, 1), wd)
            }
        }
        Bin(Op::Concat, h, l) => {
            let lw = w(l);
            if lo >= lw {
                ext(h, lo - lw, wd)
            } else if lo + wd <= lw {
                ext(l, lo, wd)
            } else {
                concat(ext(h, 0, lo + wd - lw), ext(l, lo, lw - lo))
            }
        }
        Ite(cc, x, y) if cst(x).is_some() || cst(y).is_some() => ite(cc, ext(x, lo, wd), ext(y, lo, wd)),
        Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => bin(op, ext(x, lo, wd), ext(y, lo, wd)),
        Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y) if lo == 0 => bin(op, ext(x, 0, wd), ext(y, 0, wd)),
        _ => cx().mk(Ext(a, lo), wd),
    }
}
pub fn concat(h: E, l: E) -> E {
    let wd = w(h) + w(l);
    assert!(wd <= 128, "concat width {}", wd);
    if let (Some(x), Some(y)) = (cst(h), cst(l)) {
        return c((x << w(l)) | y, wd);
    }
    if cst(h) == Some(0) {
        return zext(l, wd);
    }
    // adjacent extracts merge
    fn merge(h: E, l: E) -> Option<E> {
        let (hb, hl) = match node(h) {
            Ext(b, lo) => (b, lo),
            _ => return None,
        };
        match node(l) {
            Ext(b, lo) if b == hb && lo + w(l) == hl => Some(ext(b, lo, w(h) + w(l))),
            _ if l == hb => None,
            _ => {
                if hl == w(l) && ext(hb, 0, hl) == l {
                    Some(ext(hb, 0, hl + w(h)))
                } else {
                    None
                }
            }
        }
    }
    if let Some(r) = merge(h, l) {
        return r;
    }
    if let ZExt(h2) = node(h) {
        return zext(concat(h2, l), wd);
    }
    if let Bin(Op::Concat, h1, h2) = node(h) {
        return concat(h1, concat(h2, l));
    }
    if let Bin(Op::Concat, l1, l2) = node(l) {
        if let Some(r) = merge(h, l1) {
            return concat(r, l2);
        }
        if let (Some(x), Some(y)) = (cst(h), cst(l1)) {
            return concat(c((x << w(l1)) | y, w(h) + w(l1)), l2);
        }
    }
    cx().mk(Bin(Op::Concat, h, l), wd)
}
pub fn ite(cc: E, a: E, b: E) -> E {
    debug_assert_eq!(w(cc), 1);
    debug_assert_eq!(w(a), w(b));
    if a == b {
        return a;
    }
    match cst(cc) {
        Some(1) => return a,
        Some(_) => return b,
        None => {}
    }
    if let Bin(Op::Xor, x, k) = node(cc) {
        if cst(k) == Some(1) {
            return ite(x, b, a);
        }
    }
    if w(a) == 1 {
        match (cst(a), cst(b)) {
            (Some(1), Some(0)) => return cc,
            (Some(0), Some(1)) => return not(cc),
            (Some(1), None) => return or(cc, b),
            (Some(0), None) => return and(not(cc), b),
            (None, Some(0)) => return and(cc, a),
            (None, Some(1)) => return or(not(cc), a),
            _ => {}
        }
    }
    if let Ite(c2, x, _) = node(a) {
        if c2 == cc {
            return ite(cc, x, b);
        }
    }
    if let Ite(c2, _, y) = node(b) {
        if c2 == cc {
            return ite(cc, a, y);
        }
    }
    cx().mk(Ite(cc, a, b), w(a))
}

fn is_ite_cc(e: E) -> Option<(E, E, E)> {
    match node(e) {
        Ite(cc, x, y) if cst(x).is_some() && cst(y).is_some() => Some((cc, x, y)),
        _ => None,
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let wd = w(a);
    debug_assert_eq!(wd, w(b), "{:?}", op);
    let rw = match op {
        Op::Eq | Op::Ult | Op::Slt => 1,
        _ => wd,
    };
    if let (Some(x), Some(y)) = (cst(a), cst(b)) {
        return c(fold(op, x, y, wd), rw);
    }
    if op == Op::Concat {
        return concat(a, b);
    }
    // constants go right for commutative operators
    let (a, b) = match op {
        Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
            if cst(a).is_some() || (cst(b).is_none() && a > b) {
                (b, a)
            } else {
                (a, b)
            }
        }
        _ => (a, b),
    };
    let cb = cst(b);
    let ca = cst(a);
    // op(ite(c,k1,k2),k)
    if let (Some((cc, x, y)), Some(_)) = (is_ite_cc(a), cb) {
        return ite(cc, bin(op, x, b), bin(op, y, b));
    }
    if let (Some(_), Some((cc, x, y))) = (ca, is_ite_cc(b)) {
        return ite(cc, bin(op, a, x), bin(op, a, y));
    }
    let m = mask(wd);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let (Bin(Op::Add, x, y), Some(k)) = (node(a), cb) {
                if let Some(k2) = cst(y) {
                    return add(x, c(k.wrapping_add(k2), wd));
                }
            }
            if let (Bin(Op::Add, x, y), None) = (node(a), cb) {
                if cst(y).is_some() {
                    return add(add(x, b), y);
                }
            }
            if let (Bin(Op::Add, x, y), None) = (node(b), cb) {
                if cst(y).is_some() {
                    return add(add(a, x), y);
                }
            }
            if wd == 1 {
                return bin(Op::Xor, a, b);
            }
            // x + (y - x) = y
            if let Bin(Op::Sub, y, x) = node(b) {
                if x == a {
                    return y;
                }
            }
            if let Bin(Op::Sub, y, x) = node(a) {
                if x == b {
                    return y;
                }
            }
            // disjoint bits
            if cb.is_none() && (kz(a) | kz(b)) & m == m {
                return or(a, b);
            }
        }
        Op::Sub => {
            if a == b {
                return c(0, wd);
            }
            if let Some(k) = cb {
                return add(a, c((!k).wrapping_add(1), wd));
            }
            if wd == 1 {
                return bin(Op::Xor, a, b);
            }
            if let Bin(Op::Add, x, y) = node(a) {
                if x == b {
                    return y;
                }
                if y == b {
                    return x;
                }
                if cst(y).is_some() {
                    return add(sub(x, b), y);
                }
            }
            if let Bin(Op::Add, x, y) = node(b) {
                if let Some(k) = cst(y) {
                    return add(sub(a, x), c((!k).wrapping_add(1), wd));
                }
            }
        }
        Op::Mul => {
            if let Some(k) = cb {
                if k == 0 {
                    return b;
                }
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(Op::Shl, a, c(k.trailing_zeros() as u128, wd));
                }
            }
            if wd == 1 {
                return and(a, b);
            }
        }
        Op::UDiv => {
            if let Some(k) = cb {
                if k == 1 {
                    return a;
                }
                if k.is_power_of_two() {
                    return bin(Op::LShr, a, c(k.trailing_zeros() as u128, wd));
                }
                if umax(a) < k {
                    return c(0, wd);
                }
            }
        }
        Op::URem => {
            if let Some(k) = cb {
                if k.is_power_of_two() {
                    return and(a, c(k - 1, wd));
                }
                if umax(a) < k {
                    return a;
                }
            }
        }
        Op::And => {
            if a == b {
                return a;
            }
            if (kz(a) | kz(b)) & m == m {
                return c(0, wd);
            }
            if let Some(k) = cb {
                if k == m || (!k & m) & !kz(a) == 0 {
                    return a;
                }
                if let Bin(Op::And, x, y) = node(a) {
                    if let Some(k2) = cst(y) {
                        return and(x, c(k & k2, wd));
                    }
                }
                // contiguous mask
                let tz = k.trailing_zeros() as u16;
                let len = (k >> tz).trailing_ones() as u16;
                if k == mask(len) << tz && wd > 1 {
                    let mid = ext(a, tz, len);
                    let lo = if tz > 0 { concat(mid, c(0, tz)) } else { mid };
                    return zext(lo, wd);
                }
            }
            if wd == 1 {
                if is_not(a) == Some(b) || is_not(b) == Some(a) {
                    return ff();
                }
            }
            if let Some(r) = split_bitwise(op, a, b) {
                return r;
            }
        }
        Op::Or | Op::Xor => {
            if a == b {
                return if op == Op::Or { a } else { c(0, wd) };
            }
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                if op == Op::Or && k == m {
                    return b;
                }
                if let Bin(o2, x, y) = node(a) {
                    if o2 == op {
                        if let Some(k2) = cst(y) {
                            return bin(op, x, c(if op == Op::Or { k | k2 } else { k ^ k2 }, wd));
                        }
                    }
                }
            }
            if wd == 1 && op == Op::Or && (is_not(a) == Some(b) || is_not(b) == Some(a)) {
                return tt();
            }
            if let Some(r) = split_bitwise(op, a, b) {
                return r;
            }
        }
        Op::Shl | Op::LShr | Op::AShr => {
            if let Some(k) = cb {
                if k == 0 {
                    return a;
                }
                let k = if k >= wd as u128 { wd } else { k as u16 };
                match op {
                    Op::Shl => {
                        if k >= wd {
                            return c(0, wd);
                        }
                        return concat(ext(a, 0, wd - k), c(0, k));
                    }
                    Op::LShr => {
                        if k >= wd {
                            return c(0, wd);
                        }
                        return zext(ext(a, k, wd - k), wd);
                    }
                    _ => {
                        let k = k.min(wd - 1);
                        return sext(ext(a, k, wd - k), wd);
                    }
                }
            }
            if ca == Some(0) {
                return a;
            }
        }
        Op::Eq => {
            if a == b {
                return tt();
            }
            if wd == 1 {
                return match cb {
                    Some(1) => a,
                    Some(_) => not(a),
                    None => not(bin(Op::Xor, a, b)),
                };
            }
            if let Some(k) = cb {
                if k & kz(a) != 0 {
                    return ff();
                }
                match node(a) {
                    ZExt(x) => return eq(x, c(k, w(x))),
                    SExt(x) => {
                        let t = c(k, w(x));
                        return if cst(sext(t, wd)) == Some(k) { eq(x, t) } else { ff() };
                    }
                    Bin(Op::Concat, h, l) => {
                        let lw = w(l);
                        return and(eq(h, c(k >> lw, w(h))), eq(l, c(k, lw)));
                    }
                    Bin(Op::Add, x, y) => {
                        if let Some(k2) = cst(y) {
                            return eq(x, c(k.wrapping_sub(k2), wd));
                        }
                    }
                    Bin(Op::Xor, x, y) => {
                        if let Some(k2) = cst(y) {
                            return eq(x, c(k ^ k2, wd));
                        }
                    }
                    Bin(Op::Sub, x, y) if k == 0 => return eq(x, y),
                    Ite(cc, x, y) => {
                        if cst(x).is_some() || cst(y).is_some() {
                            return ite(cc, eq(x, b), eq(y, b));
                        }
                    }
                    _ => {}
                }
            } else {
                if let (ZExt(x), ZExt(y)) = (node(a), node(b)) {
                    let mw = w(x).max(w(y));
                    return eq(zext(x, mw), zext(y, mw));
                }
                if let (Bin(Op::Concat, h1, l1), Bin(Op::Concat, h2, l2)) = (node(a), node(b)) {
                    if w(l1) == w(l2) {
                        return and(eq(h1, h2), eq(l1, l2));
                    }
                }
                if let (Bin(Op::Add, x, y), Bin(Op::Add, x2, y2)) = (node(a), node(b)) {
                    if y == y2 {
                        return eq(x, x2);
                    }
                }
                if let Bin(Op::Add, x, y) = node(a) {
                    if x == b {
                        return eq(y, c(0, wd));
                    }
                    if y == b {
                        return eq(x, c(0, wd));
                    }
                }
                if let Bin(Op::Add, x, y) = node(b) {
                    if x == a {
                        return eq(y, c(0, wd));
                    }
                    if y == a {
                        return eq(x, c(0, wd));
                    }
                }
            }
        }
        Op::Ult => {
            if a == b || cb == Some(0) || ca == Some(m) {
                return ff();
            }
            let au = umax(a);
            let bu = umax(b);
            if let Some(k) = cb {
                if au < k {
                    return tt();
                }
                if k == 1 {
                    return eq(a, c(0, wd));
                }
                if k == m {
                    return not(eq(a, b));
                }
            }
            if let Some(k) = ca {
                if k >= bu {
                    return ff();
                }
                if k == 0 {
                    return not(eq(b, a));
                }
            }
            if wd == 1 {
                return and(not(a), b);
            }
            match (node(a), node(b)) {
                (ZExt(x), ZExt(y)) => {
                    let mw = w(x).max(w(y));
                    return ult(zext(x, mw), zext(y, mw));
                }
                (ZExt(x), Const(k)) => return ult(x, c(k, w(x))),
                (Const(k), ZExt(y)) => return ult(c(k, w(y)), y),
                _ => {}
            }
        }
        Op::Slt => {
            if a == b {
                return ff();
            }
            let sa = (kz(a) >> (wd - 1)) & 1 == 1;
            let sb = (kz(b) >> (wd - 1)) & 1 == 1;
            if wd == 1 {
                return and(a, not(b));
            }
            if sa && sb {
                return ult(a, b);
            }
            if cb == Some(0) {
                return ext(a, wd - 1, 1);
            }
            if ca == Some(m) {
                return not(ext(b, wd - 1, 1));
            }
            if let Some(k) = ca {
                if (k >> (wd - 1)) & 1 == 1 && sb {
                    return tt();
                }
            }
            if let Some(k) = cb {
                if (k >> (wd - 1)) & 1 == 1 && sa {
                    return ff();
                }
                if k == 1u128 << (wd - 1) {
                    return ff();
                }
            }
            match (node(a), node(b)) {
                (SExt(x), SExt(y)) => {
                    let mw = w(x).max(w(y));
                    return slt(sext(x, mw), sext(y, mw));
                }
                (SExt(x), Const(k)) => {
                    let xw = w(x);
                    let sk = sext_c(k, wd);
                    let lo = -(1i128 << (xw - 1));
                    let hi = (1i128 << (xw - 1)) - 1;
                    return if sk > hi {
                        tt()
                    } else if sk <= lo {
                        ff()
                    } else {
                        slt(x, c(k, xw))
                    };
                }
                (Const(k), SExt(y)) => {
                    let yw = w(y);
                    let sk = sext_c(k, wd);
                    let lo = -(1i128 << (yw - 1));
                    let hi = (1i128 << (yw - 1)) - 1;
                    return if sk >= hi {
                        ff()
                    } else if sk < lo {
                        tt()
                    } else {
                        slt(c(k, yw), y)
                    };
                }
                _ => {}
            }
        }
        _ => {}
    }
    cx().mk(Bin(op, a, b), rw)
}

pub fn is_not(e: E) -> Option<E> {
    match node(e) {
        Bin(Op::Xor, x, k) if w(e) == 1 && cst(k) == Some(1) => Some(x),
        _ => None,
    }
}

/// Bitwise operators over operands with a structural boundary (concat/zext): split when one
/// half becomes trivial.
fn split_bitwise(op: Op, a: E, b: E) -> Option<E> {
    let wd = w(a);
    if wd == 1 {
        return None;
    }
    let bound = |e: E| match node(e) {
        ZExt(x) => Some(w(x)),
        Bin(Op::Concat, _, l) => Some(w(l)),
        _ => None,
    };
    for (x, y) in [(a, b), (b, a)] {
        if let Some(k) = bound(x) {
            let lo_m = mask(k);
            let hi_m = mask(wd) & !lo_m;
            let z = kz(y);
            let zx = kz(x);
            if z & lo_m == lo_m || z & hi_m == hi_m || zx & lo_m == lo_m || zx & hi_m == hi_m || cst(y).is_some() {
                let h = bin(op, ext(x, k, wd - k), ext(y, k, wd - k));
                let l = bin(op, ext(x, 0, k), ext(y, 0, k));
                return Some(concat(h, l));
            }
        }
    }
    None
}

/// Evaluate under an assignment.
pub fn eval(e: E, model: &[u128]) -> u128 {
    let mut memo: FMap<E, u128> = HashMap::default();
    eval_m(e, model, &mut memo)
}
pub fn eval_m(e: E, model: &[u128], memo: &mut FMap<E, u128>) -> u128 {
    match node(e) {
        Const(v) => return v,
        Sym(i) => return model.get(i as usize).copied().unwrap_or(0) & mask(w(e)),
        _ => {}
    }
    if let Some(&v) = memo.get(&e) {
        return v;
    }
    let wd = w(e);
    let v = match node(e) {
        Bin(Op::Concat, h, l) => (eval_m(h, model, memo) << w(l)) | eval_m(l, model, memo),
        Bin(op, a, b) => {
            let x = eval_m(a, model, memo);
            let y = eval_m(b, model, memo);
            let r = fold(op, x, y, w(a));
            r & mask(wd)
        }
        Ite(cc, a, b) => {
            if eval_m(cc, model, memo) == 1 {
                eval_m(a, model, memo)
            } else {
                eval_m(b, model, memo)
            }
        }
        Ext(a, lo) => (eval_m(a, model, memo) >> lo) & mask(wd),
        ZExt(a) => eval_m(a, model, memo),
        SExt(a) => (sext_c(eval_m(a, model, memo), w(a)) as u128) & mask(wd),
        _ => unreachable!(),
    };
    memo.insert(e, v);
    v
}

/// Replace the symbols in `fixed` by their values under `model`.
pub fn subst(e: E, fixed: u128, model: &[u128], memo: &mut FMap<E, E>) -> E {
    let vs = vars(e);
    if vs & fixed == 0 {
        return e;
    }
    if let Sym(i) = node(e) {
        // bit 127 is never in `fixed`
        return c(model.get(i as usize).copied().unwrap_or(0), w(e));
    }
    if let Some(&r) = memo.get(&e) {
        return r;
    }
    let r = match node(e) {
        Bin(Op::Concat, h, l) => {
            let (h, l) = (subst(h, fixed, model, memo), subst(l, fixed, model, memo));
            concat(h, l)
        }
        Bin(op, a, b) => {
            let (a, b) = (subst(a, fixed, model, memo), subst(b, fixed, model, memo));
            bin(op, a, b)
        }
        Ite(cc, a, b) => {
            let cc = subst(cc, fixed, model, memo);
            match cst(cc) {
                Some(1) => subst(a, fixed, model, memo),
                Some(_) => subst(b, fixed, model, memo),
                None => {
                    let (a, b) = (subst(a, fixed, model, memo), subst(b, fixed, model, memo));
                    ite(cc, a, b)
                }
            }
        }
        Ext(a, lo) => ext(subst(a, fixed, model, memo), lo, w(e)),
        ZExt(a) => zext(subst(a, fixed, model, memo), w(e)),
        SExt(a) => sext(subst(a, fixed, model, memo), w(e)),
        _ => e,
    };
    memo.insert(e, r);
    r
}
