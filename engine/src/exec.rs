//! Path-exhaustive symbolic execution of LLVM IR.
use crate::expr::*;
use crate::fp;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub const UNINIT: E = u32::MAX;

#[derive(Clone, Debug)]
pub enum V {
    I(E),
    Agg(Rc<Vec<V>>),
    None,
}
impl V {
    pub fn e(&self) -> E {
        match self {
            V::I(e) => *e,
            x => panic!("scalar expected, got {:?}", x),
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<E>,
    pub heap: bool,
    pub konst: bool,
    pub what: u32, // 0 global 1 stack 2 heap
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<V>,
    bb: u32,
    ip: usize,
    prev: u32,
    allocas: Vec<u64>,
    dst: Option<u32>,
    normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: BTreeMap<u64, Rc<Obj>>,
    freed: BTreeSet<u64>,
    next: u64,
    pc: Vec<E>,
    eqs: FMap<E, u128>,
    /// symbols (below 127) whose value the path condition fixes; the model holds the value
    fixed: u128,
    undefs: u32,
    model: Rc<Vec<u128>>,
    inputs: Vec<E>,
    panic_ok: bool,
    steps: u64,
    depth: u32,
    covers: Vec<Rc<str>>,
    nchecks: u32,
}

/// A finished path: concrete inputs that drive it, and what it should do natively.
#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<(u16, u128)>,
    pub covers: Vec<Rc<str>>,
    pub checks: u32,
    pub panicked: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(u16, u128)>,
}

pub enum Stop {
    Done,
    /// the state was replaced by the ones already queued
    Forked,
    Err(String),
    Violation(String, String),
    PanicOk,
}
type X<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Err(s.into()))
}

pub struct Limits {
    pub max_steps: u64,
    pub max_paths: u64,
    pub max_time: f64,
    pub max_viol: usize,
}

pub struct Eng {
    /// solver queries by source location (TSX_PROF)
    pub prof: Option<std::collections::BTreeMap<String, u64>>,
    pub m: Module,
    funcs: HashMap<Rc<str>, Rc<Func>>,
    faddr: HashMap<Rc<str>, u64>,
    fname: HashMap<u64, Rc<str>>,
    gaddr: HashMap<Rc<str>, u64>,
    gobjs: BTreeMap<u64, (u64, usize)>, // addr -> (size, index)
    ginfo: Vec<Global>,
    gmat: HashMap<u64, Rc<Obj>>,
    pub solver: Solver,
    work: Vec<State>,
    symids: HashMap<(usize, u16), u32>,
    pub covers: BTreeMap<String, u64>,
    pub viols: Vec<Violation>,
    pub errors: Vec<String>,
    pub paths: u64,
    pub panic_paths: u64,
    pub steps: u64,
    pub forks: u64,
    pub checks: u64,
    pub used: BTreeMap<Rc<str>, u64>,
    pub stubs: BTreeSet<String>,
    pub max_depth_seen: usize,
    pub undef_count: u32,
    pub limits: Limits,
    pub t0: Instant,
    pub incomplete: bool,
    pub kinds: HashMap<Rc<str>, Kind>,
    pub trace: bool,
    pub samples: Vec<Sample>,
    pub nsamples: usize,
    pub rng: u64,
    recent: Vec<Rc<Vec<u128>>>,
    pub reused: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Normal,
    Write,
    Random,
    SymInt,
    SymConc,
    SymPick,
    SymAssume,
    SymCheck,
    SymCover,
    SymPanicOk,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
    Panic,
    Bcmp,
    Memcmp,
    Memcpy,
    Memset,
    Intrinsic,
    Strlen,
    PtrIdent,
}

const FBASE: u64 = 0x10000;
const GBASE: u64 = 0x1000_0000;
const DBASE: u64 = 0x1_0000_0000;

impl Eng {
    pub fn new(m: Module, limits: Limits) -> Result<Eng, String> {
        let mut e = Eng {
            prof: std::env::var_os("TSX_PROF").map(|_| Default::default()),
            m,
            funcs: HashMap::new(),
            faddr: HashMap::new(),
            fname: HashMap::new(),
            gaddr: HashMap::new(),
            gobjs: BTreeMap::new(),
            ginfo: vec![],
            gmat: HashMap::new(),
            solver: Solver::new(120_000),
            work: vec![],
            symids: HashMap::new(),
            covers: BTreeMap::new(),
            viols: vec![],
            errors: vec![],
            paths: 0,
            panic_paths: 0,
            steps: 0,
            forks: 0,
            checks: 0,
            used: BTreeMap::new(),
            stubs: BTreeSet::new(),
            max_depth_seen: 0,
            undef_count: 0,
            limits,
            t0: Instant::now(),
            incomplete: false,
            kinds: HashMap::new(),
            trace: false,
            samples: vec![],
            nsamples: 0,
            rng: 1,
            recent: vec![],
            reused: 0,
        };
        let mut names: Vec<Rc<str>> = e.m.fdefs.keys().cloned().chain(e.m.fdecls.iter().cloned()).collect();
        names.sort();
        let mut a = FBASE;
        for n in names {
            e.faddr.insert(n.clone(), a);
            e.fname.insert(a, n);
            a += 16;
        }
        let gl = e.m.globals.clone();
        let mut a = GBASE;
        for (name, s, t) in gl {
            let g = e.m.parse_global((s, t)).map_err(|x| format!("global @{}: {}", name, x))?;
            let al = g.align.max(16);
            a = round_up(a, al);
            let sz = g.ty.size();
            e.gaddr.insert(name.clone(), a);
            e.gobjs.insert(a, (sz, e.ginfo.len()));
            e.ginfo.push(g);
            a += sz + 32;
        }
        Ok(e)
    }

    fn addr_of(&self, n: &str) -> Option<u64> {
        if let Some(&a) = self.gaddr.get(n) {
            return Some(a);
        }
        if let Some(&a) = self.faddr.get(n) {
            return Some(a);
        }
        if let Some(t) = self.m.aliases.get(n) {
            return self.addr_of(t);
        }
        None
    }

    // ---------- constants ----------
    fn kv(&self, t: &Ty, k: &K) -> Result<V, String> {
        Ok(match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let n = match t {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                match k {
                    K::Agg(v) => {
                        let mut o = vec![];
                        for (t, k) in v.iter() {
                            o.push(self.kv(t, k)?);
                        }
                        V::Agg(Rc::new(o))
                    }
                    K::Zero | K::Undef | K::Null => {
                        let mut o = vec![];
                        for i in 0..n {
                            o.push(self.kv(&t.elem(i), k)?);
                        }
                        V::Agg(Rc::new(o))
                    }
                    K::Splat(x) => {
                        let v = self.kv(&x.0, &x.1)?;
                        V::Agg(Rc::new(vec![v; n]))
                    }
                    K::Bytes(b) => V::Agg(Rc::new(b.iter().map(|x| V::I(*x as E)).collect())),
                    _ => return Err(format!("aggregate constant {:?}", k)),
                }
            }
            Ty::Void | Ty::Meta => V::None,
            _ => V::I(self.ke(t, k)?),
        })
    }
    fn ke(&self, t: &Ty, k: &K) -> Result<E, String> {
        let wd = t.bits();
        Ok(match k {
            K::Int(v) => c(*v, wd),
            K::Null | K::Zero | K::Undef => c(0, wd),
            K::Float(f) => {
                if *t == Ty::F32 {
                    c((*f as f32).to_bits() as u128, 32)
                } else {
                    c(f.to_bits() as u128, 64)
                }
            }
            K::Global(n) => c64(self.addr_of(n).ok_or(format!("unknown symbol @{}", n))?),
            K::Gep(bt, base, ix) => {
                let mut a = cst(self.ke(&base.0, &base.1)?).unwrap() as u64;
                let mut cur = bt.clone();
                for (n, (it, ik)) in ix.iter().enumerate() {
                    let v = sext_c(cst(self.ke(it, ik)?).unwrap(), it.bits()) as i64;
                    if n == 0 {
                        a = a.wrapping_add((v as u64).wrapping_mul(cur.size()));
                    } else {
                        a = a.wrapping_add(cur.field_off(v as usize));
                        cur = cur.elem(v as usize);
                    }
                }
                c64(a)
            }
            K::Cast(op, x, t2) => {
                let v = self.ke(&x.0, &x.1)?;
                let w2 = t2.bits();
                match *op {
                    "trunc" => trunc(v, w2),
                    "zext" => zext(v, w2),
                    "sext" => sext(v, w2),
                    _ => {
                        let w1 = w(v);
                        if w1 > w2 {
                            trunc(v, w2)
                        } else {
                            zext(v, w2)
                        }
                    }
                }
            }
            K::Bin(op, x, y) => {
                let a = self.ke(&x.0, &x.1)?;
                let b = self.ke(&y.0, &y.1)?;
                bin(binop(op).ok_or("const binop")?, a, b)
            }
            _ => return Err(format!("constant {:?}", k)),
        })
    }
    fn init_bytes(&self, t: &Ty, k: &K, out: &mut [E]) -> Result<(), String> {
        match (t, k) {
            (_, K::Zero) => {
                for b in out.iter_mut() {
                    *b = 0
                }
            }
            (_, K::Undef) => {}
            (Ty::Arr(..), K::Bytes(b)) => {
                for (i, x) in b.iter().enumerate() {
                    out[i] = *x as E
                }
            }
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), K::Agg(v)) => {
                for (i, (et, ek)) in v.iter().enumerate() {
                    let o = t.field_off(i) as usize;
                    let n = et.size() as usize;
                    self.init_bytes(et, ek, &mut out[o..o + n])?;
                }
            }
            (Ty::Arr(n, et) | Ty::Vec(n, et), K::Splat(x)) => {
                let s = et.size() as usize;
                for i in 0..*n as usize {
                    self.init_bytes(et, &x.1, &mut out[i * s..(i + 1) * s])?;
                }
            }
            _ => {
                let e = self.ke(t, k)?;
                let n = t.size() as usize;
                let wd = w(e);
                for i in 0..n {
                    let lo = (i * 8) as u16;
                    out[i] = if lo >= wd { 0 } else { let nb = (wd - lo).min(8); zext(ext(e, lo, nb), 8) };
                }
            }
        }
        Ok(())
    }

    // ---------- path condition ----------
    fn add_pc(&mut self, s: &mut State, e: E) {
        if cst(e).is_some() {
            return;
        }
        match node(e) {
            Node::Bin(Op::And, a, b) => {
                self.add_pc(s, a);
                self.add_pc(s, b);
                return;
            }
            Node::Bin(Op::Eq, a, b) => {
                if let Some(k) = cst(b) {
                    s.eqs.insert(a, k);
                    let mut x = a;
                    while let Node::ZExt(y) = node(x) {
                        x = y;
                    }
                    if let Node::Sym(i) = node(x) {
                        if i < 127 {
                            s.fixed |= 1 << i;
                        }
                    }
                }
            }
            Node::Bin(Op::Xor, a, _) if is_not(e).is_some() => {
                if let Node::Bin(Op::Or, x, y) = node(a) {
                    self.add_pc(s, not(x));
                    self.add_pc(s, not(y));
                    return;
                }
                s.eqs.insert(a, 0);
            }
            _ => {}
        }
        s.eqs.insert(e, 1);
        s.pc.push(e);
    }

    /// Is pc ∧ e satisfiable? Returns a full model when it is.
    fn feasible(&mut self, s: &State, e: E) -> X<Option<Rc<Vec<u128>>>> {
        match cst(e) {
            Some(1) => return Ok(Some(s.model.clone())),
            Some(_) => return Ok(None),
            None => {}
        }
        if let Some(&k) = s.eqs.get(&e) {
            return Ok(if k == 1 { Some(s.model.clone()) } else { None });
        }
        if eval(e, &s.model) == 1 {
            return Ok(Some(s.model.clone()));
        }
        let e = self.unfix(s, e);
        if cst(e).is_some() {
            // not satisfied by the values the path fixes
            return Ok(None);
        }
        // independence slicing
        let mut vs = vars(e);
        let mut sel = vec![e];
        let mut rest: Vec<E> = s.pc.iter().map(|&x| self.unfix(s, x)).filter(|&x| cst(x).is_none()).collect();
        loop {
            let n = sel.len();
            rest.retain(|&x| {
                if vars(x) & vs != 0 {
                    vs |= vars(x);
                    sel.push(x);
                    false
                } else {
                    true
                }
            });
            if sel.len() == n {
                break;
            }
        }
        // a recent model may already satisfy the slice
        for i in (0..self.recent.len()).rev() {
            let r = self.recent[i].clone();
            let mut memo = Default::default();
            if sel.iter().all(|&x| eval_m(x, &r, &mut memo) == 1) {
                self.reused += 1;
                let mut mm = (*s.model).clone();
                for k in 0..self.symids.len() {
                    if (vs >> k.min(127)) & 1 == 1 {
                        if mm.len() <= k {
                            mm.resize(k + 1, 0);
                        }
                        mm[k] = r.get(k).copied().unwrap_or(0);
                    }
                }
                return Ok(Some(Rc::new(mm)));
            }
        }
        if self.prof.is_some() {
            let k = self.stack(s);
            let key = k.iter().take(3).cloned().collect::<Vec<_>>().join(" < ");
            *self.prof.as_mut().unwrap().entry(key).or_insert(0u64) += 1;
        }
        match self.solver.check(sel) {
            Res::Sat(m) => {
                let mut mm = (*s.model).clone();
                for (i, v) in m {
                    let i = i as usize;
                    if mm.len() <= i {
                        mm.resize(i + 1, 0);
                    }
                    mm[i] = v;
                }
                let mm = Rc::new(mm);
                if self.recent.len() >= 24 {
                    self.recent.remove(0);
                }
                self.recent.push(mm.clone());
                Ok(Some(mm))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => err("solver returned unknown (query timeout)"),
        }
    }

    /// Replace fixed symbols by their values.
    fn unfix(&self, s: &State, e: E) -> E {
        let vs = vars(e);
        if vs & s.fixed == 0 {
            e
        } else if vs & !s.fixed == 0 {
            c(eval(e, &s.model), w(e))
        } else {
            subst(e, s.fixed, &s.model, &mut Default::default())
        }
    }

    fn pin(&self, s: &State, e: E) -> E {
        if cst(e).is_some() || s.eqs.is_empty() {
            return e;
        }
        let e = self.unfix(s, e);
        if cst(e).is_some() {
            return e;
        }
        if let Some(&k) = s.eqs.get(&e) {
            return c(k, w(e));
        }
        match node(e) {
            Node::ZExt(x) => {
                if let Some(&k) = s.eqs.get(&x) {
                    return c(k, w(e));
                }
            }
            Node::Bin(Op::Add, x, y) => {
                if let (Some(&k), Some(k2)) = (s.eqs.get(&x), cst(y)) {
                    return c(k.wrapping_add(k2), w(e));
                }
            }
            _ => {}
        }
        e
    }

    /// Decide a branch: returns the truth value on this state, queueing the other side.
    fn decide(&mut self, s: &mut State, e: E) -> X<bool> {
        let e = self.pin(s, e);
        if let Some(k) = cst(e) {
            return Ok(k == 1);
        }
        let ne = not(e);
        let v = eval(e, &s.model) == 1;
        let (here, there) = if v { (e, ne) } else { (ne, e) };
        if let Some(m) = self.feasible(s, there)? {
            let mut o = s.clone();
            o.model = m;
            self.add_pc(&mut o, there);
            o.depth += 1;
            self.forks += 1;
            self.work.push(o);
        }
        self.add_pc(s, here);
        Ok(v)
    }

    /// Concretise an expression: forks over every feasible value.
    fn concretize(&mut self, s: &mut State, e: E) -> X<u128> {
        loop {
            let e = self.pin(s, e);
            if let Some(k) = cst(e) {
                return Ok(k);
            }
            let v = eval(e, &s.model);
            let q = eq(e, c(v, w(e)));
            // the current model satisfies q, so decide() keeps this state on q
            if self.decide(s, q)? {
                return Ok(v);
            }
        }
    }

    // ---------- memory ----------
    fn find(&mut self, s: &State, addr: u64) -> Option<(u64, u64)> {
        if addr >= DBASE {
            if let Some((&b, o)) = s.mem.range(..=addr).next_back() {
                if addr < b + o.size || (addr == b + o.size) {
                    return Some((b, o.size));
                }
            }
            return None;
        }
        if let Some((&b, &(sz, _))) = self.gobjs.range(..=addr).next_back() {
            if addr <= b + sz {
                return Some((b, sz));
            }
        }
        None
    }
    fn gobj(&mut self, base: u64) -> X<Rc<Obj>> {
        if let Some(o) = self.gmat.get(&base) {
            return Ok(o.clone());
        }
        let (sz, ix) = self.gobjs[&base];
        let g = self.ginfo[ix].clone();
        let mut data = vec![UNINIT; sz as usize];
        match &g.init {
            Some(k) => self.init_bytes(&g.ty, k, &mut data).map_err(Stop::Err)?,
            None => return err(format!("access to external global @{}", g.name)),
        }
        let o = Rc::new(Obj { size: sz, data, heap: false, konst: g.konst, what: 0 });
        self.gmat.insert(base, o.clone());
        Ok(o)
    }
    fn obj(&mut self, s: &State, base: u64) -> X<Rc<Obj>> {
        if let Some(o) = s.mem.get(&base) {
            return Ok(o.clone());
        }
        self.gobj(base)
    }
    fn obj_mut<'a>(&mut self, s: &'a mut State, base: u64) -> X<&'a mut Obj> {
        if !s.mem.contains_key(&base) {
            let o = self.gobj(base)?;
            s.mem.insert(base, o);
        }
        let o = s.mem.get_mut(&base).unwrap();
        Ok(Rc::make_mut(o))
    }
    fn alloc(&mut self, s: &mut State, size: u64, align: u64, what: u32, zero: bool) -> u64 {
        let a = round_up(s.next, align.max(16));
        s.next = a + size + 32;
        let fill = if zero { 0 } else { UNINIT };
        s.mem.insert(
            a,
            Rc::new(Obj { size, data: vec![fill; size as usize], heap: what == 2, konst: false, what }),
        );
        a
    }

    fn oob<T>(&mut self, s: &State, what: &str, addr: u64, n: u64) -> X<T> {
        let d = match self.find(s, addr) {
            Some((b, sz)) => format!("offset {} of an object of {} bytes", addr.wrapping_sub(b), sz),
            None => format!("address {:#x}{}", addr, if s.freed.range(..=addr).next_back().map(|b| addr - b < 4096).unwrap_or(false) { " (freed?)" } else { "" }),
        };
        Err(Stop::Violation("memory".into(), format!("{} of {} bytes out of bounds at {}", what, n, d)))
    }

    /// Resolve a pointer to (base, size, offset expression), with `n` bytes in bounds on this state.
    fn resolve(&mut self, s: &mut State, p: E, n: u64, what: &str) -> X<(u64, u64, E)> {
        let p = self.pin(s, p);
        if let Some(a) = cst(p) {
            let a = a as u64;
            if n == 0 {
                return Ok((0, 0, c64(0)));
            }
            if let Some((b, sz)) = self.find(s, a) {
                if a - b + n <= sz {
                    return Ok((b, sz, c64(a - b)));
                }
            }
            return self.oob(s, what, a, n);
        }
        if n == 0 {
            return Ok((0, 0, c64(0)));
        }
        // pointer choice
        if let Node::Ite(cc, x, y) = node(p) {
            if self.decide(s, cc)? {
                return self.resolve(s, x, n, what);
            } else {
                return self.resolve(s, y, n, what);
            }
        }
        let a = eval(p, &s.model) as u64;
        // prefer the object of the constant part, so that an out-of-bounds model is recognised
        let base = self.base_hint(s, p).or_else(|| self.find(s, a));
        if let Some((b, sz)) = base {
            if sz >= n {
                let off = sub(p, c64(b));
                let inb = ule(off, c64(sz - n));
                if self.decide(s, inb)? {
                    return Ok((b, sz, off));
                }
                let a2 = eval(p, &s.model) as u64;
                if let Some((b2, sz2)) = self.find(s, a2) {
                    if b2 != b && a2 - b2 + n <= sz2 {
                        let off = sub(p, c64(b2));
                        if self.decide(s, ule(off, c64(sz2 - n)))? {
                            return Ok((b2, sz2, off));
                        }
                    }
                }
                return self.oob(s, what, a2, n);
            }
        }
        self.oob(s, what, a, n)
    }
    fn base_hint(&mut self, s: &State, p: E) -> Option<(u64, u64)> {
        if let Node::Bin(Op::Add, _, k) = node(p) {
            if let Some(k) = cst(k) {
                return self.find(s, k as u64);
            }
        }
        None
    }

    fn byte(&mut self, s: &mut State, base: u64, off: usize, o: &Rc<Obj>) -> X<E> {
        let b = o.data[off];
        if b != UNINIT {
            return Ok(b);
        }
        // an unconstrained value, fixed from now on
        let e = self.fresh(s, 8, true);
        self.undef_count += 1;
        s.undefs += 1;
        self.obj_mut(s, base)?.data[off] = e;
        Ok(e)
    }
    fn fresh(&mut self, s: &mut State, wd: u16, undef: bool) -> E {
        // the n-th input of a width is the same symbol on every path
        let n = if undef { 1_000_000 + s.undefs as usize } else { s.inputs.iter().filter(|&&x| w(x) == wd).count() };
        let k = self.symids.len() as u32;
        let id = *self.symids.entry((n, wd)).or_insert(k);
        let e = sym(id, wd);
        if !undef {
            s.inputs.push(e);
        }
        e
    }

    fn load_bytes(&mut self, s: &mut State, p: E, n: u64) -> X<Vec<E>> {
        let (b, sz, off) = self.resolve(s, p, n, "read")?;
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj(s, b)?;
        if let Some(k) = cst(off) {
            let k = k as usize;
            if o.data[k..k + n as usize].iter().all(|&x| x != UNINIT) {
                return Ok(o.data[k..k + n as usize].to_vec());
            }
            let mut v = Vec::with_capacity(n as usize);
            for i in 0..n as usize {
                let o = self.obj(s, b)?;
                v.push(self.byte(s, b, k + i, &o)?);
            }
            return Ok(v);
        }
        // symbolic offset: multiplexer over the object
        if sz > 8192 {
            let k = self.concretize(s, off)? as usize;
            let o = self.obj(s, b)?;
            let mut v = vec![];
            for i in 0..n as usize {
                v.push(self.byte(s, b, k + i, &o)?);
            }
            return Ok(v);
        }
        let mut lo = 0usize;
        let mut hi = (sz - n) as usize; // inclusive
        if off != 0 {
            let um = umax(off);
            if um < hi as u128 {
                hi = um as usize;
            }
            if false {
                lo = 0;
            }
        }
        // initialise what may be read
        for i in lo..=hi + n as usize - 1 {
            if o.data[i] == UNINIT {
                let o = self.obj(s, b)?;
                self.byte(s, b, i, &o)?;
            }
        }
        let o = self.obj(s, b)?;
        let bits = 64 - (hi as u64).leading_zeros() as u16;
        let mut v = vec![];
        for j in 0..n as usize {
            v.push(mux(off, bits as i32 - 1, 0, hi, &|k| o.data[k + j]));
        }
        Ok(v)
    }
    fn store_bytes(&mut self, s: &mut State, p: E, v: &[E]) -> X<()> {
        let n = v.len() as u64;
        let (b, sz, off) = self.resolve(s, p, n, "write")?;
        if n == 0 {
            return Ok(());
        }
        let o = self.obj(s, b)?;
        if o.konst {
            return Err(Stop::Violation("memory".into(), "write to constant memory".into()));
        }
        if let Some(k) = cst(off) {
            let k = k as usize;
            let o = self.obj_mut(s, b)?;
            o.data[k..k + v.len()].copy_from_slice(v);
            return Ok(());
        }
        if sz <= 64 && n == 1 {
            for i in 0..sz as usize {
                if umax(off) < i as u128 {
                    break;
                }
                let o = self.obj(s, b)?;
                let old = self.byte(s, b, i, &o)?;
                let nv = ite(eq(off, c64(i as u64)), v[0], old);
                self.obj_mut(s, b)?.data[i] = nv;
            }
            return Ok(());
        }
        let k = self.concretize(s, off)? as usize;
        let o = self.obj_mut(s, b)?;
        o.data[k..k + v.len()].copy_from_slice(v);
        Ok(())
    }

    fn load(&mut self, s: &mut State, t: &Ty, p: E) -> X<V> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                if let Ty::Vec(nn, et) = t {
                    if let Ty::Int(iw) = **et {
                        if iw % 8 != 0 {
                            // bit-packed vector
                            let bs = self.load_bytes(s, p, t.size())?;
                            let e = join(&bs);
                            let lanes = (0..*nn as u16).map(|i| V::I(ext(e, i * iw, iw))).collect();
                            return Ok(V::Agg(Rc::new(lanes)));
                        }
                    }
                }
                let n = match t {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                let mut v = vec![];
                for i in 0..n {
                    let q = add(p, c64(t.field_off(i)));
                    v.push(self.load(s, &t.elem(i), q)?);
                }
                Ok(V::Agg(Rc::new(v)))
            }
            _ => {
                let wd = t.bits();
                let n = (wd as u64 + 7) / 8;
                let bs = self.load_bytes(s, p, n)?;
                let e = join(&bs);
                Ok(V::I(trunc(e, wd)))
            }
        }
    }
    fn store(&mut self, s: &mut State, t: &Ty, v: &V, p: E) -> X<()> {
        match (t, v) {
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), V::Agg(fs)) => {
                for (i, f) in fs.iter().enumerate() {
                    let q = add(p, c64(t.field_off(i)));
                    self.store(s, &t.elem(i), f, q)?;
                }
                Ok(())
            }
            (_, V::I(e)) => {
                let wd = w(*e);
                let n = (wd + 7) / 8;
                let mut bs = Vec::with_capacity(n as usize);
                for i in 0..n {
                    let nb = (wd - i * 8).min(8);
                    bs.push(zext(ext(*e, i * 8, nb), 8));
                }
                self.store_bytes(s, p, &bs)
            }
            _ => err("store of a non-value"),
        }
    }

    // ---------- running ----------
    pub fn func(&mut self, n: &str) -> X<Rc<Func>> {
        if let Some(f) = self.funcs.get(n) {
            return Ok(f.clone());
        }
        let f = self.m.parse_func(n).map_err(|e| Stop::Err(format!("function @{}: {}", n, e)))?;
        let f = Rc::new(f);
        self.funcs.insert(n.into(), f.clone());
        Ok(f)
    }
    pub fn run(&mut self, entry: &str) {
        self.t0 = Instant::now();
        let f = match self.func(entry) {
            Ok(f) => f,
            Err(_) => {
                self.errors.push(format!("no function {}", entry));
                return;
            }
        };
        *self.used.entry(entry.into()).or_insert(0) += 1;
        f.blocks[0].seen.set(true);
        let s = State {
            frames: vec![Frame {
                regs: vec![V::None; f.nregs],
                f,
                bb: 0,
                ip: 0,
                prev: 0,
                allocas: vec![],
                dst: None,
                normal: None,
            }],
            mem: BTreeMap::new(),
            freed: BTreeSet::new(),
            next: DBASE,
            pc: vec![],
            eqs: HashMap::default(),
            fixed: 0,
            undefs: 0,
            model: Rc::new(vec![]),
            inputs: vec![],
            panic_ok: false,
            steps: 0,
            depth: 0,
            covers: vec![],
            nchecks: 0,
        };
        self.work.push(s);
        while let Some(mut s) = self.work.pop() {
            let r = self.run_state(&mut s);
            match r {
                Stop::Forked => continue,
                Stop::Done => {
                    self.paths += 1;
                    self.sample(&s, false);
                    let cv = std::mem::take(&mut s.covers);
                    for m in cv {
                        *self.covers.entry(m.to_string()).or_insert(0) += 1;
                    }
                }
                Stop::PanicOk => {
                    self.paths += 1;
                    self.panic_paths += 1;
                    self.sample(&s, true);
                    for m in std::mem::take(&mut s.covers) {
                        *self.covers.entry(m.to_string()).or_insert(0) += 1;
                    }
                }
                Stop::Err(e) => {
                    self.paths += 1;
                    let st = self.stack(&s).join(" < ");
                    let m = format!("{} [{}]", e, st);
                    if self.errors.len() < 20 && !self.errors.contains(&m) {
                        self.errors.push(m);
                    }
                }
                Stop::Violation(k, m) => {
                    self.paths += 1;
                    self.report(&s, k, m, None);
                }
            }
            if self.paths >= self.limits.max_paths
                || self.t0.elapsed().as_secs_f64() > self.limits.max_time
                || self.viols.len() >= self.limits.max_viol
                || self.errors.len() >= 20
            {
                if !self.work.is_empty() {
                    self.incomplete = true;
                }
                break;
            }
        }
    }
    fn sample(&mut self, s: &State, panicked: bool) {
        let n = self.paths as usize;
        let slot = if self.samples.len() < self.nsamples {
            self.samples.len()
        } else {
            self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (self.rng >> 33) as usize % n.max(1)
        };
        if slot >= self.nsamples {
            return;
        }
        let x = Sample {
            inputs: s.inputs.iter().map(|&e| (w(e), eval(e, &s.model))).collect(),
            covers: s.covers.clone(),
            checks: s.nchecks,
            panicked,
        };
        if slot == self.samples.len() {
            self.samples.push(x)
        } else {
            self.samples[slot] = x
        }
    }
    fn stack(&self, s: &State) -> Vec<String> {
        let mut out = vec![];
        for f in s.frames.iter().rev() {
            let d = f.f.blocks[f.bb as usize].dbg.get(f.ip).copied().unwrap_or(0);
            let c = self.m.chain(d);
            if c.is_empty() {
                out.push(f.f.name.to_string());
            }
            for (n, fl, l) in c {
                out.push(format!("{} ({}:{})", n, fl, l));
            }
            if out.len() > 24 {
                break;
            }
        }
        out
    }
    /// Source functions with at least one executed block, inlined ones included: (name, file).
    pub fn source_functions(&self) -> Vec<(String, String)> {
        self.source_lines().into_iter().map(|(n, f, _)| (n, f)).collect::<BTreeSet<_>>().into_iter().collect()
    }
    /// The same with the source lines of the executed blocks.
    pub fn source_lines(&self) -> BTreeSet<(String, String, u32)> {
        let mut ids = BTreeSet::new();
        for f in self.funcs.values() {
            for b in f.blocks.iter().filter(|b| b.seen.get()) {
                ids.extend(b.dbg.iter().copied().filter(|&d| d != 0));
            }
        }
        let mut out = BTreeSet::new();
        for d in ids {
            for (n, f, l) in self.m.chain(d) {
                out.insert((n, f, l as u32));
            }
        }
        out
    }
    fn report(&mut self, s: &State, kind: String, msg: String, model: Option<Rc<Vec<u128>>>) {
        let key = |v: &Violation| (v.kind.clone(), v.msg.clone());
        let m = model.unwrap_or(s.model.clone());
        let v = Violation {
            kind,
            msg,
            stack: self.stack(s),
            inputs: s.inputs.iter().map(|&e| (w(e), eval(e, &m))).collect(),
        };
        if self.viols.iter().any(|x| key(x) == key(&v)) {
            return;
        }
        self.viols.push(v);
    }

    fn run_state(&mut self, s: &mut State) -> Stop {
        loop {
            s.steps += 1;
            self.steps += 1;
            if s.steps > self.limits.max_steps {
                // a candidate for non-termination: the driver replays it with a time limit
                return Stop::Violation("steps".into(), "execution exceeds the step bound".into());
            }
            if s.steps & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.limits.max_time {
                self.incomplete = true;
                return Stop::Err("time limit".into());
            }
            match self.step(s) {
                Ok(()) => {}
                Err(x) => return x,
            }
        }
    }

    fn ov(&self, s: &State, t: &Ty, o: &O) -> X<V> {
        match o {
            O::Reg(r) => {
                let v = s.frames.last().unwrap().regs[*r as usize].clone();
                Ok(match v {
                    V::I(e) => V::I(self.pin(s, e)),
                    v => v,
                })
            }
            O::K(k) => self.kv(t, k).map_err(Stop::Err),
        }
    }
    fn oe(&self, s: &State, t: &Ty, o: &O) -> X<E> {
        match self.ov(s, t, o)? {
            V::I(e) => Ok(e),
            V::None => err("use of an undefined register"),
            _ => err("scalar expected"),
        }
    }

    fn jump(&mut self, s: &mut State, to: u32) -> X<()> {
        let fr = s.frames.last().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        blk.seen.set(true);
        let mut vals = vec![];
        let mut n = 0;
        for (d, i) in &blk.ins {
            if let Ins::Phi(t, v) = i {
                let o = v.iter().find(|x| x.1 == from).ok_or(Stop::Err("phi edge".into()))?;
                vals.push((d.unwrap(), self.ov(s, t, &o.0)?));
                n += 1;
            } else {
                break;
            }
        }
        let fr = s.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.prev = from;
        fr.bb = to;
        fr.ip = n;
        Ok(())
    }

    fn set(&self, s: &mut State, d: Option<u32>, v: V) {
        if let Some(d) = d {
            s.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }

    fn map2(&self, a: V, b: V, f: &dyn Fn(E, E) -> X<E>) -> X<V> {
        match (a, b) {
            (V::I(x), V::I(y)) => Ok(V::I(f(x, y)?)),
            (V::Agg(x), V::Agg(y)) => {
                let mut o = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    o.push(self.map2(p.clone(), q.clone(), f)?);
                }
                Ok(V::Agg(Rc::new(o)))
            }
            _ => err("operand shapes"),
        }
    }
    fn map1(&self, a: V, f: &dyn Fn(E) -> X<E>) -> X<V> {
        match a {
            V::I(x) => Ok(V::I(f(x)?)),
            V::Agg(x) => {
                let mut o = vec![];
                for p in x.iter() {
                    o.push(self.map1(p.clone(), f)?);
                }
                Ok(V::Agg(Rc::new(o)))
            }
            _ => err("operand shape"),
        }
    }

    fn step(&mut self, s: &mut State) -> X<()> {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let (bb, ip) = (fr.bb as usize, fr.ip);
        let (d, ins) = match f.blocks[bb].ins.get(ip) {
            Some(x) => x,
            None => return err("fell off a block"),
        };
        let d = *d;
        match ins {
            Ins::Bin(op, t, a, b) => {
                let x = self.ov(s, t, a)?;
                let y = self.ov(s, t, b)?;
                let et = match t {
                    Ty::Vec(_, e) => (**e).clone(),
                    t => t.clone(),
                };
                let r = if let Some(o) = binop(op) {
                    self.map2(x, y, &|p, q| Ok(bin(o, p, q)))?
                } else {
                    self.map2(x, y, &|p, q| fbin(op, &et, p, q))?
                };
                self.set(s, d, r);
            }
            Ins::ICmp(p, t, a, b) => {
                let x = self.ov(s, t, a)?;
                let y = self.ov(s, t, b)?;
                let r = self.map2(x, y, &|x, y| {
                    Ok(match &**p {
                        "eq" => eq(x, y),
                        "ne" => not(eq(x, y)),
                        "ult" => ult(x, y),
                        "ule" => ule(x, y),
                        "ugt" => ult(y, x),
                        "uge" => ule(y, x),
                        "slt" => slt(x, y),
                        "sle" => sle(x, y),
                        "sgt" => slt(y, x),
                        "sge" => sle(y, x),
                        _ => return err("icmp"),
                    })
                })?;
                self.set(s, d, r);
            }
            Ins::FCmp(p, t, a, b) => {
                let x = self.ov(s, t, a)?;
                let y = self.ov(s, t, b)?;
                let r = self.map2(x, y, &|x, y| fcmp(p, x, y))?;
                self.set(s, d, r);
            }
            Ins::Cast(op, t, a, t2) => {
                let x = self.ov(s, t, a)?;
                let r = self.cast(op, t, x, t2)?;
                self.set(s, d, r);
            }
            Ins::Load(t, p) => {
                let q = self.oe(s, &Ty::Ptr, p)?;
                let v = self.load(s, t, q)?;
                self.set(s, d, v);
            }
            Ins::Store(t, v, p) => {
                let q = self.oe(s, &Ty::Ptr, p)?;
                let v = self.ov(s, t, v)?;
                self.store(s, t, &v, q)?;
            }
            Ins::Alloca(t, n, al) => {
                let cnt = match n {
                    Some((t, o)) => {
                        let e = self.oe(s, t, o)?;
                        self.concretize(s, e)? as u64
                    }
                    None => 1,
                };
                let a = self.alloc(s, t.size() * cnt, (*al).max(t.align()), 1, false);
                s.frames.last_mut().unwrap().allocas.push(a);
                self.set(s, d, V::I(c64(a)));
            }
            Ins::Gep(t, p, ix) => {
                let mut q = self.oe(s, &Ty::Ptr, p)?;
                let mut cur = t.clone();
                for (n, (it, io)) in ix.iter().enumerate() {
                    let i = self.oe(s, it, io)?;
                    let i = if w(i) < 64 { sext(i, 64) } else { trunc(i, 64) };
                    if n == 0 {
                        q = add(q, bin(Op::Mul, i, c64(cur.size())));
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = cst(i).ok_or(Stop::Err("struct index".into()))? as usize;
                                q = add(q, c64(cur.field_off(k)));
                                cur = cur.elem(k);
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                q = add(q, bin(Op::Mul, i, c64(e.size())));
                                cur = (**e).clone();
                            }
                            _ => return err("gep type"),
                        }
                    }
                }
                self.set(s, d, V::I(q));
            }
            Ins::Select(t, cnd, a, b, ct) => {
                let k = self.ov(s, ct, cnd)?;
                let x = self.ov(s, t, a)?;
                let y = self.ov(s, t, b)?;
                let r = match k {
                    V::I(k) => {
                        if let Some(k) = cst(k) {
                            if k == 1 {
                                x
                            } else {
                                y
                            }
                        } else if matches!(t, Ty::Ptr) && is_ptr_choice(&x, &y) {
                            // fork on pointer selects: keeps addresses concrete
                            if self.decide(s, k)? {
                                x
                            } else {
                                y
                            }
                        } else {
                            self.map2(x, y, &|p, q| Ok(ite(k, p, q)))?
                        }
                    }
                    V::Agg(ks) => match (x, y) {
                        (V::Agg(x), V::Agg(y)) => {
                            let mut o = vec![];
                            for i in 0..ks.len() {
                                o.push(V::I(ite(ks[i].e(), x[i].e(), y[i].e())));
                            }
                            V::Agg(Rc::new(o))
                        }
                        _ => return err("vector select"),
                    },
                    _ => return err("select"),
                };
                self.set(s, d, r);
            }
            Ins::Phi(..) => return err("phi in the middle of a block"),
            Ins::Br(b) => return self.jump(s, *b),
            Ins::CondBr(k, a, b) => {
                let e = self.oe(s, &Ty::Int(1), k)?;
                let to = if self.decide(s, e)? { *a } else { *b };
                return self.jump(s, to);
            }
            Ins::Switch(t, v, def, cases) => {
                let e = self.oe(s, t, v)?;
                if let Some(k) = cst(e) {
                    let m = mask(w(e));
                    let to = cases.iter().find(|x| x.0 & m == k).map(|x| x.1).unwrap_or(*def);
                    return self.jump(s, to);
                }
                // group the cases by destination, in order
                let mut groups: Vec<(u32, E)> = vec![];
                for (k, b) in cases {
                    let q = eq(e, c(*k, w(e)));
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) {
                        g.1 = or(g.1, q);
                    } else {
                        groups.push((*b, q));
                    }
                }
                for (b, q) in groups {
                    if b == *def {
                        continue;
                    }
                    if self.decide(s, q)? {
                        return self.jump(s, b);
                    }
                }
                return self.jump(s, *def);
            }
            Ins::Ret(v) => {
                let v = match v {
                    Some((t, o)) => self.ov(s, t, o)?,
                    None => V::None,
                };
                return self.ret(s, v);
            }
            Ins::Unreachable => {
                return Err(Stop::Violation("unreachable".into(), "execution reaches code the compiler marked unreachable".into()))
            }
            Ins::Call { callee, ret, args, normal } => return self.call(s, d, callee, ret, args, *normal),
            Ins::ExtractV(t, o, ix) => {
                let mut v = self.ov(s, t, o)?;
                for i in ix {
                    v = match v {
                        V::Agg(a) => a[*i].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                self.set(s, d, v);
            }
            Ins::InsertV(t, o, t2, x, ix) => {
                let v = self.ov(s, t, o)?;
                let x = self.ov(s, t2, x)?;
                fn ins(v: V, x: V, ix: &[usize]) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        V::Agg(a) => {
                            let mut a = (*a).clone();
                            let old = std::mem::replace(&mut a[ix[0]], V::None);
                            a[ix[0]] = ins(old, x, &ix[1..]);
                            V::Agg(Rc::new(a))
                        }
                        _ => V::None,
                    }
                }
                let r = ins(v, x, ix);
                self.set(s, d, r);
            }
            Ins::ExtractE(t, o, t2, i) => {
                let v = self.ov(s, t, o)?;
                let i = self.oe(s, t2, i)?;
                let k = self.concretize(s, i)? as usize;
                match v {
                    V::Agg(a) if k < a.len() => {
                        let x = a[k].clone();
                        self.set(s, d, x)
                    }
                    _ => return err("extractelement"),
                }
            }
            Ins::InsertE(t, o, x, t2, i) => {
                let et = t.elem(0);
                let v = self.ov(s, t, o)?;
                let x = self.ov(s, &et, x)?;
                let i = self.oe(s, t2, i)?;
                let k = self.concretize(s, i)? as usize;
                match v {
                    V::Agg(a) => {
                        let mut a = (*a).clone();
                        a[k] = x;
                        self.set(s, d, V::Agg(Rc::new(a)))
                    }
                    _ => return err("insertelement"),
                }
            }
            Ins::Shuffle(t, a, b, mk) => {
                let x = self.ov(s, t, a)?;
                let y = self.ov(s, t, b)?;
                match (x, y) {
                    (V::Agg(x), V::Agg(y)) => {
                        let mut o = vec![];
                        for &i in mk {
                            let i = if i < 0 { 0 } else { i as usize };
                            o.push(if i < x.len() { x[i].clone() } else { y[i - x.len()].clone() });
                        }
                        self.set(s, d, V::Agg(Rc::new(o)));
                    }
                    _ => return err("shuffle"),
                }
            }
            Ins::Freeze(t, o) => {
                let v = self.ov(s, t, o)?;
                self.set(s, d, v);
            }
            Ins::FNeg(t, o) => {
                let v = self.ov(s, t, o)?;
                let r = self.map1(v, &|e| Ok(bin(Op::Xor, e, c(1u128 << (w(e) - 1), w(e)))))?;
                self.set(s, d, r);
            }
            Ins::AtomicRmw(op, p, t, v) => {
                let q = self.oe(s, &Ty::Ptr, p)?;
                let x = self.oe(s, t, v)?;
                let old = self.load(s, t, q)?;
                let o = old.e();
                let nv = match &**op {
                    "xchg" => x,
                    "add" => add(o, x),
                    "sub" => sub(o, x),
                    "and" => and(o, x),
                    "or" => or(o, x),
                    "xor" => bin(Op::Xor, o, x),
                    "umax" => ite(ult(o, x), x, o),
                    "umin" => ite(ult(o, x), o, x),
                    _ => return err(format!("atomicrmw {}", op)),
                };
                self.store(s, t, &V::I(nv), q)?;
                self.set(s, d, old);
            }
            Ins::CmpXchg(p, t, a, b) => {
                let q = self.oe(s, &Ty::Ptr, p)?;
                let x = self.oe(s, t, a)?;
                let y = self.oe(s, t, b)?;
                let old = self.load(s, t, q)?.e();
                let same = eq(old, x);
                self.store(s, t, &V::I(ite(same, y, old)), q)?;
                self.set(s, d, V::Agg(Rc::new(vec![V::I(old), V::I(same)])));
            }
            Ins::Fence => {}
            Ins::LandingPad | Ins::Resume => return err("unwinding is not modelled"),
            Ins::Unsupported(x) => return err(format!("unsupported instruction: {}", x)),
        }
        s.frames.last_mut().unwrap().ip = ip + 1;
        Ok(())
    }

    fn ret(&mut self, s: &mut State, v: V) -> X<()> {
        let fr = s.frames.pop().unwrap();
        for a in &fr.allocas {
            s.mem.remove(a);
        }
        if s.frames.is_empty() {
            return Err(Stop::Done);
        }
        self.set(s, fr.dst, v);
        match fr.normal {
            Some(b) => self.jump(s, b),
            None => {
                s.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    fn cast(&self, op: &str, t: &Ty, x: V, t2: &Ty) -> X<V> {
        if op == "bitcast" {
            // vector <-> scalar
            let flat = |v: &V| -> E {
                match v {
                    V::I(e) => *e,
                    V::Agg(a) => {
                        let mut r = a[0].e();
                        for x in &a[1..] {
                            r = concat(x.e(), r);
                        }
                        r
                    }
                    V::None => c(0, 1),
                }
            };
            return Ok(match t2 {
                Ty::Vec(n, et) => {
                    let total: u64 = match t {
                        Ty::Vec(m, e0) => m * e0.bits() as u64,
                        t => t.bits() as u64,
                    };
                    if total > 128 {
                        return err("wide bitcast");
                    }
                    let e = flat(&x);
                    let ew = et.bits();
                    V::Agg(Rc::new((0..*n as u16).map(|i| V::I(ext(e, i * ew, ew))).collect()))
                }
                _ => V::I(flat(&x)),
            });
        }
        let et2 = match t2 {
            Ty::Vec(_, e) => (**e).clone(),
            t => t.clone(),
        };
        let et = match t {
            Ty::Vec(_, e) => (**e).clone(),
            t => t.clone(),
        };
        let w2 = et2.bits();
        self.map1(x, &|e| {
            let w1 = w(e);
            Ok(match op {
                "zext" => zext(e, w2),
                "sext" => sext(e, w2),
                "trunc" => trunc(e, w2),
                "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                    if w1 > w2 {
                        trunc(e, w2)
                    } else {
                        zext(e, w2)
                    }
                }
                "fpext" => {
                    if let Some(k) = cst(e) {
                        c((f32::from_bits(k as u32) as f64).to_bits() as u128, 64)
                    } else {
                        fpext(e)
                    }
                }
                "uitofp" => fp::of_int(fty(&et2)?, e, false),
                "sitofp" => fp::of_int(fty(&et2)?, e, true),
                "fptoui" => fp::to_int(fty(&et)?, e, w2, false),
                "fptosi" => fp::to_int(fty(&et)?, e, w2, true),
                "fptrunc" => fp::convert(fty(&et)?, fty(&et2)?, e),
                _ => return err(format!("cast {}", op)),
            })
        })
    }

    fn kind(&mut self, n: &Rc<str>) -> Kind {
        if let Some(k) = self.kinds.get(n) {
            return *k;
        }
        let x: &str = n;
        let defined = self.m.fdefs.contains_key(n);
        let k = match x {
            "__sym_int" => Kind::SymInt,
            "__sym_conc" => Kind::SymConc,
            "__sym_pick" => Kind::SymPick,
            "__sym_assume" => Kind::SymAssume,
            "__sym_check" => Kind::SymCheck,
            "__sym_cover" => Kind::SymCover,
            "__sym_panic_ok" => Kind::SymPanicOk,
            "__sym_listen" | "__sym_heard" => Kind::Nop,
            "bcmp" => Kind::Bcmp,
            "memcmp" => Kind::Memcmp,
            "memcpy" | "memmove" => Kind::Memcpy,
            "memset" => Kind::Memset,
            "strlen" => Kind::Strlen,
            "getrandom" if !defined => {
                self.stubs.insert("getrandom (fixed bytes: the keys of hash tables)".into());
                Kind::Random
            }
            "abort" => Kind::Panic,
            _ if x.starts_with("llvm.") => Kind::Intrinsic,
            _ if x.ends_with("___rust_alloc") => Kind::Alloc,
            _ if x.ends_with("___rust_alloc_zeroed") => Kind::AllocZeroed,
            _ if x.ends_with("___rust_dealloc") => Kind::Dealloc,
            _ if x.ends_with("___rust_realloc") => Kind::Realloc,
            _ if x.contains("___rust_no_alloc_shim_is_unstable") => Kind::Nop,
            _ if x.contains("2io5stdio7__eprint") || x.contains("2io5stdio6__print") => {
                self.stubs.insert("std::io::stdio::_print/_eprint (output discarded, or handed to the harness)".into());
                Kind::Nop
            }
            // panic entry points (v0 mangling)
            _ if x.contains("4core9panicking") || x.contains("3std9panicking") || x.contains("18handle_alloc_error") || x.contains("17rust_begin_unwind") => Kind::Panic,
            _ if !defined => Kind::Normal,
            _ => Kind::Normal,
        };
        self.kinds.insert(n.clone(), k);
        k
    }

    fn panic_site(&mut self, s: &State, args: &[V]) -> String {
        // the Location argument: pointer to { file ptr, len, line u32, col u32 }
        for a in args.iter().rev() {
            if let V::I(e) = a {
                if let Some(p) = cst(*e) {
                    let p = p as u64;
                    if let Some(&(sz, ix)) = self.gobjs.get(&p) {
                        if sz == 24 && self.ginfo[ix].konst {
                            if let Ok(o) = self.gobj(p) {
                                let rd = |i: usize, n: usize| -> Option<u64> {
                                    let mut v = 0u64;
                                    for k in 0..n {
                                        v |= (cst(*o.data.get(i + k)?)? as u64) << (8 * k);
                                    }
                                    Some(v)
                                };
                                if let (Some(fp), Some(len), Some(line), Some(col)) = (rd(0, 8), rd(8, 8), rd(16, 4), rd(20, 4)) {
                                    if self.gobjs.contains_key(&fp) && len < 4096 {
                                        if let Ok(fo) = self.gobj(fp) {
                                            let st: Vec<u8> = fo.data.iter().take(len as usize).map(|&b| cst(b).unwrap_or(63) as u8).collect();
                                            let _ = col;
                                            return format!("{}:{}", String::from_utf8_lossy(&st), line);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        let st = self.stack(s);
        format!("in {}", st.first().cloned().unwrap_or_default())
    }

    fn cstr(&mut self, s: &mut State, p: E, n: E) -> X<Rc<str>> {
        // a message chosen by a value: the compiler may have turned the choice into arithmetic
        let p = self.concretize(s, p)?;
        let n = self.concretize(s, n)? as u64;
        let b = self.load_bytes(s, c64(p as u64), n)?;
        let v: Vec<u8> = b.iter().map(|&x| cst(x).unwrap_or(63) as u8).collect();
        Ok(String::from_utf8_lossy(&v).into_owned().into())
    }

    fn call(&mut self, s: &mut State, d: Option<u32>, callee: &O, ret: &Ty, args: &[(Ty, O)], normal: Option<u32>) -> X<()> {
        let name: Rc<str> = match callee {
            O::K(K::Global(n)) => n.clone(),
            o => {
                let e = self.oe(s, &Ty::Ptr, o)?;
                let a = self.concretize(s, e)? as u64;
                match self.fname.get(&a) {
                    Some(n) => n.clone(),
                    None => return Err(Stop::Violation("memory".into(), format!("call through a bad function pointer {:#x}", a))),
                }
            }
        };
        let name = match self.m.aliases.get(&name) {
            Some(t) => t.clone(),
            None => name,
        };
        let mut k = self.kind(&name);
        let mut name = name;
        if k == Kind::Nop && name.contains("2io5stdio7__eprint") && self.m.fdefs.contains_key("__sym_eprint") {
            // the harness listens to what is printed to standard error
            k = Kind::Normal;
            name = "__sym_eprint".into();
        }
        let mut av = Vec::with_capacity(args.len());
        if k != Kind::Intrinsic || !(name.starts_with("llvm.lifetime") || name.starts_with("llvm.experimental")) {
            for (t, o) in args {
                av.push(if *t == Ty::Meta { V::None } else { self.ov(s, t, o)? });
            }
        }
        if &*name == "write" && k == Kind::Normal && av.len() == 3 && !self.m.fdefs.contains_key(&name) {
            // output to a standard stream: discarded, or handed to the harness
            match cst(av[0].e()) {
                Some(2) if self.m.fdefs.contains_key("__sym_write") => name = "__sym_write".into(),
                Some(1) | Some(2) => {
                    self.stubs.insert("write(2) to standard output or error (output discarded, or handed to the harness)".into());
                    k = Kind::Write;
                }
                _ => {}
            }
        }
        if k == Kind::Normal {
            if !self.m.fdefs.contains_key(&name) {
                return err(format!("call to external function {}", name));
            }
            let f = self.func(&name)?;
            *self.used.entry(name.clone()).or_insert(0) += 1;
            if s.frames.len() > 2000 {
                return Err(Stop::Violation("steps".into(), "call depth bound exceeded".into()));
            }
            if self.trace {
                eprintln!("{}{}", " ".repeat(s.frames.len()), name);
            }
            self.max_depth_seen = self.max_depth_seen.max(s.frames.len());
            let mut regs = vec![V::None; f.nregs];
            if f.params.len() != av.len() && !f.vararg {
                return err(format!("arity of {}", name));
            }
            for ((_, r, bv), v) in f.params.iter().zip(av) {
                if *bv > 0 {
                    let a = self.alloc(s, *bv, 16, 1, false);
                    let bs = self.load_bytes(s, v.e(), *bv)?;
                    self.store_bytes(s, c64(a), &bs)?;
                    regs[*r as usize] = V::I(c64(a));
                } else {
                    regs[*r as usize] = v;
                }
            }
            f.blocks[0].seen.set(true);
            s.frames.push(Frame { f, regs, bb: 0, ip: 0, prev: 0, allocas: vec![], dst: d, normal });
            return Ok(());
        }
        let r = self.builtin(s, k, &name, ret, &av, args)?;
        self.set(s, d, r);
        match normal {
            Some(b) => self.jump(s, b),
            None => {
                s.frames.last_mut().unwrap().ip += 1;
                Ok(())
            }
        }
    }

    fn builtin(&mut self, s: &mut State, k: Kind, name: &str, ret: &Ty, a: &[V], args: &[(Ty, O)]) -> X<V> {
        Ok(match k {
            Kind::Write => V::I(a[2].e()),
            Kind::Random => {
                let n = self.concretize(s, a[1].e())? as u64;
                let b: Vec<E> = (0..n).map(|i| c((i * 73 + 41) as u128 & 255, 8)).collect();
                self.store_bytes(s, a[0].e(), &b)?;
                V::I(c64(n))
            }
            Kind::SymInt => {
                let n = cst(a[0].e()).ok_or(Stop::Err("sym width".into()))? as u16;
                let e = self.fresh(s, n * 8, false);
                V::I(zext(e, 64))
            }
            Kind::SymConc => {
                let v = self.concretize(s, a[0].e())?;
                V::I(c64(v as u64))
            }
            // a value in lo..=hi, one path each
            Kind::SymPick => {
                let e = self.pin(s, a[0].e());
                let k = |i: usize| cst(a[i].e()).ok_or(Stop::Err("pick bounds".into()));
                let (lo, hi) = (k(1)?, k(2)?);
                if let Some(v) = cst(e) {
                    return if v >= lo && v <= hi { Ok(V::I(e)) } else { Err(Stop::Forked) };
                }
                if let Node::ZExt(x) = node(e) {
                    if let Node::Sym(id) = node(x) {
                        let used = s.pc.iter().fold(0, |m, &y| m | vars(y));
                        // nothing constrains the symbol yet: every value is feasible, no query needed
                        if id < 127 && used & vars(e) == 0 && hi <= mask(w(x)) && lo <= hi {
                            for v in (lo..=hi).rev() {
                                let mut o = if v == lo { None } else { Some(s.clone()) };
                                let t = o.as_mut().unwrap_or(s);
                                let mut mm = (*t.model).clone();
                                if mm.len() <= id as usize {
                                    mm.resize(id as usize + 1, 0);
                                }
                                mm[id as usize] = v;
                                t.model = Rc::new(mm);
                                self.add_pc(t, eq(x, c(v, w(x))));
                                if let Some(mut o) = o {
                                    o.depth += 1;
                                    self.forks += 1;
                                    self.work.push(o);
                                }
                            }
                            return Ok(V::I(c64(lo as u64)));
                        }
                    }
                }
                let inr = and(ule(c(lo, w(e)), e), ule(e, c(hi, w(e))));
                if !self.decide(s, inr)? {
                    return Err(Stop::Forked);
                }
                let v = self.concretize(s, e)?;
                V::I(c64(v as u64))
            }
            Kind::SymAssume => {
                let e = self.pin(s, trunc(a[0].e(), 1));
                match self.feasible(s, e)? {
                    Some(m) => {
                        s.model = m;
                        self.add_pc(s, e);
                    }
                    None => return Err(Stop::Forked),
                }
                V::None
            }
            Kind::SymCheck => {
                let e = self.pin(s, trunc(a[0].e(), 1));
                self.checks += 1;
                s.nchecks += 1;
                let bad = not(e);
                if let Some(m) = self.feasible(s, bad)? {
                    let msg = self.cstr(s, a[1].e(), a[2].e())?;
                    self.report(s, "check".into(), msg.to_string(), Some(m));
                    match self.feasible(s, e)? {
                        Some(m) => s.model = m,
                        None => return Err(Stop::Forked),
                    }
                }
                self.add_pc(s, e);
                V::None
            }
            Kind::SymCover => {
                let m = self.cstr(s, a[0].e(), a[1].e())?;
                if !s.covers.contains(&m) {
                    s.covers.push(m);
                }
                V::None
            }
            Kind::SymPanicOk => {
                let e = trunc(a[0].e(), 1);
                s.panic_ok = self.decide(s, e)?;
                V::None
            }
            Kind::Alloc | Kind::AllocZeroed => {
                let n = self.concretize_size(s, a[0].e())?;
                let al = self.concretize(s, a[1].e())? as u64;
                let p = self.alloc(s, n, al, 2, k == Kind::AllocZeroed);
                V::I(c64(p))
            }
            Kind::Dealloc => {
                let p = self.concretize(s, a[0].e())? as u64;
                match s.mem.get(&p) {
                    Some(o) if o.heap => {
                        s.mem.remove(&p);
                        s.freed.insert(p);
                    }
                    _ => return Err(Stop::Violation("memory".into(), "deallocation of a pointer that is not a live heap block".into())),
                }
                V::None
            }
            Kind::Realloc => {
                let p = self.concretize(s, a[0].e())? as u64;
                let al = self.concretize(s, a[2].e())? as u64;
                let n = self.concretize_size(s, a[3].e())?;
                let o = match s.mem.get(&p) {
                    Some(o) if o.heap => o.clone(),
                    _ => return Err(Stop::Violation("memory".into(), "reallocation of a pointer that is not a live heap block".into())),
                };
                let q = self.alloc(s, n, al, 2, false);
                let k = o.size.min(n) as usize;
                self.obj_mut(s, q)?.data[..k].copy_from_slice(&o.data[..k]);
                s.mem.remove(&p);
                s.freed.insert(p);
                V::I(c64(q))
            }
            Kind::Nop => match ret {
                Ty::Void => V::None,
                t => self.kv(t, &K::Zero).map_err(Stop::Err)?,
            },
            Kind::Panic => {
                if s.panic_ok {
                    return Err(Stop::PanicOk);
                }
                let site = self.panic_site(s, a);
                return Err(Stop::Violation("panic".into(), format!("panic at {}", site)));
            }
            Kind::Bcmp | Kind::Memcmp => {
                let n = self.concretize(s, a[2].e())? as u64;
                let x = self.load_bytes(s, a[0].e(), n)?;
                let y = self.load_bytes(s, a[1].e(), n)?;
                if k == Kind::Bcmp {
                    let mut r = tt();
                    for i in 0..n as usize {
                        r = and(r, eq(x[i], y[i]));
                    }
                    V::I(ite(r, c(0, 32), c(1, 32)))
                } else {
                    let mut r = c(0, 32);
                    for i in (0..n as usize).rev() {
                        let lt = ult(x[i], y[i]);
                        r = ite(eq(x[i], y[i]), r, ite(lt, c(u128::MAX, 32), c(1, 32)));
                    }
                    V::I(r)
                }
            }
            Kind::Memcpy => {
                self.memcpy(s, a[0].e(), a[1].e(), a[2].e())?;
                a[0].clone()
            }
            Kind::Memset => {
                let n = self.concretize(s, a[2].e())? as usize;
                let b = trunc(a[1].e(), 8);
                self.store_bytes(s, a[0].e(), &vec![b; n])?;
                a[0].clone()
            }
            Kind::Strlen => {
                let mut n = 0u64;
                loop {
                    let b = self.load_bytes(s, add(a[0].e(), c64(n)), 1)?[0];
                    if self.decide(s, eq(b, c(0, 8)))? {
                        break;
                    }
                    n += 1;
                }
                V::I(c64(n))
            }
            Kind::Intrinsic => self.intrinsic(s, name, ret, a, args)?,
            Kind::Normal | Kind::PtrIdent => unreachable!(),
        })
    }

    fn concretize_size(&mut self, s: &mut State, e: E) -> X<u64> {
        let e = self.pin(s, e);
        if let Some(k) = cst(e) {
            let k = k as u64;
            if k > 1 << 26 {
                return Err(Stop::Violation("alloc".into(), "allocation larger than 64 MiB".into()));
            }
            return Ok(k);
        }
        // report a large request at once; its small siblings add nothing to a failed harness
        let others = self.work.len();
        let mut big = self.decide(s, ule(c64(1 << 14), e))?;
        if self.work.len() > others {
            let o = self.work.pop().unwrap();
            if !big {
                *s = o;
                big = true;
            }
        }
        if big {
            return Err(Stop::Violation("alloc".into(), "allocation larger than 16 KiB requested by a symbolic length".into()));
        }
        Ok(self.concretize(s, e)? as u64)
    }

    fn memcpy(&mut self, s: &mut State, d: E, src: E, n: E) -> X<()> {
        let n = self.concretize(s, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        // raw copy keeps uninitialised bytes uninitialised
        let (sb, _, so) = self.resolve(s, src, n, "read")?;
        if let Some(k) = cst(so) {
            let o = self.obj(s, sb)?;
            let v = o.data[k as usize..k as usize + n as usize].to_vec();
            return self.store_bytes(s, d, &v);
        }
        let v = self.load_bytes(s, src, n)?;
        self.store_bytes(s, d, &v)
    }

    fn intrinsic(&mut self, s: &mut State, name: &str, ret: &Ty, a: &[V], _args: &[(Ty, O)]) -> X<V> {
        let p: Vec<&str> = name.split('.').collect();
        let k = p[1];
        let at = |i: usize| a[i].e();
        Ok(match k {
            "lifetime" | "dbg" | "assume" | "experimental" | "donothing" | "prefetch" | "sideeffect" | "invariant" => {
                if k == "invariant" && ret != &Ty::Void {
                    return Ok(V::I(c64(0)));
                }
                V::None
            }
            "expect" => a[0].clone(),
            "threadlocal" | "launder" | "strip" | "ssa" => a[0].clone(),
            "memcpy" | "memmove" => {
                self.memcpy(s, at(0), at(1), zx64(at(2)))?;
                V::None
            }
            "memset" => {
                let n = self.concretize(s, at(2))? as usize;
                if n > 0 {
                    self.store_bytes(s, at(0), &vec![at(1); n])?;
                }
                V::None
            }
            "trap" | "ubsantrap" | "debugtrap" => {
                if s.panic_ok {
                    return Err(Stop::PanicOk);
                }
                return Err(Stop::Violation("panic".into(), format!("trap in {}", self.stack(s)[0])));
            }
            "umin" => self.map2(a[0].clone(), a[1].clone(), &|x, y| Ok(ite(ult(x, y), x, y)))?,
            "umax" => self.map2(a[0].clone(), a[1].clone(), &|x, y| Ok(ite(ult(x, y), y, x)))?,
            "smin" => self.map2(a[0].clone(), a[1].clone(), &|x, y| Ok(ite(slt(x, y), x, y)))?,
            "smax" => self.map2(a[0].clone(), a[1].clone(), &|x, y| Ok(ite(slt(x, y), y, x)))?,
            "abs" => self.map1(a[0].clone(), &|x| Ok(ite(slt(x, c(0, w(x))), sub(c(0, w(x)), x), x)))?,
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let (x, y) = (at(0), at(1));
                let lt = if k == "ucmp" { ult(x, y) } else { slt(x, y) };
                V::I(ite(lt, c(u128::MAX, rw), ite(eq(x, y), c(0, rw), c(1, rw))))
            }
            "bswap" => self.map1(a[0].clone(), &|x| {
                let n = w(x) / 8;
                let mut r = ext(x, 0, 8);
                for i in 1..n {
                    r = concat(r, ext(x, i * 8, 8));
                }
                Ok(r)
            })?,
            "bitreverse" => self.map1(a[0].clone(), &|x| {
                let mut r = ext(x, 0, 1);
                for i in 1..w(x) {
                    r = concat(r, ext(x, i, 1));
                }
                Ok(r)
            })?,
            "ctpop" => self.map1(a[0].clone(), &|x| {
                let wd = w(x);
                if let Some(v) = cst(x) {
                    return Ok(c(v.count_ones() as u128, wd));
                }
                let mut r = c(0, wd);
                for i in 0..wd {
                    if (kz(x) >> i) & 1 == 0 {
                        r = add(r, zext(ext(x, i, 1), wd));
                    }
                }
                Ok(r)
            })?,
            "cttz" => self.map1(a[0].clone(), &|x| {
                let wd = w(x);
                let mut r = c(wd as u128, wd);
                for i in (0..wd).rev() {
                    if (kz(x) >> i) & 1 == 0 {
                        r = ite(ext(x, i, 1), c(i as u128, wd), r);
                    }
                }
                Ok(r)
            })?,
            "ctlz" => self.map1(a[0].clone(), &|x| {
                let wd = w(x);
                let mut r = c(wd as u128, wd);
                for i in 0..wd {
                    if (kz(x) >> i) & 1 == 0 {
                        r = ite(ext(x, i, 1), c((wd - 1 - i) as u128, wd), r);
                    }
                }
                Ok(r)
            })?,
            "fshl" | "fshr" => {
                let (x, y, z) = (at(0), at(1), at(2));
                let wd = w(x);
                let sh = match cst(z) {
                    Some(v) => (v % wd as u128) as u16,
                    None => {
                        let e = bin(Op::URem, z, c(wd as u128, wd));
                        self.concretize(s, e)? as u16
                    }
                };
                if sh == 0 {
                    return Ok(if k == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let l = if k == "fshl" { sh } else { wd - sh };
                V::I(concat(ext(x, 0, wd - l), ext(y, wd - l, l)))
            }
            "uadd" | "sadd" | "usub" | "ssub" | "umul" | "smul" => {
                let (x, y) = (at(0), at(1));
                let wd = w(x);
                let signed = k.starts_with('s');
                let op = match &k[1..] {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    _ => Op::Mul,
                };
                let r = bin(op, x, y);
                let zero = c(0, wd);
                let ov = match (signed, op) {
                    (false, Op::Add) => ult(r, x),
                    (false, Op::Sub) => ult(x, y),
                    (true, Op::Add) => {
                        let sx = slt(x, zero);
                        let sy = slt(y, zero);
                        let sr = slt(r, zero);
                        and(eq(sx, sy), not(eq(sx, sr)))
                    }
                    (true, Op::Sub) => {
                        let sx = slt(x, zero);
                        let sy = slt(y, zero);
                        let sr = slt(r, zero);
                        and(not(eq(sx, sy)), not(eq(sx, sr)))
                    }
                    _ => {
                        if wd > 64 {
                            let (Some(p), Some(q)) = (cst(x), cst(y)) else { return err("wide mul overflow") };
                            let o = if signed { (p as i128).overflowing_mul(q as i128).1 } else { p.overflowing_mul(q).1 };
                            c(o as u128, 1)
                        } else {
                            let ww = wd * 2;
                            let (p, q) = if signed { (sext(x, ww), sext(y, ww)) } else { (zext(x, ww), zext(y, ww)) };
                            let m = bin(Op::Mul, p, q);
                            let back = if signed { sext(r, ww) } else { zext(r, ww) };
                            not(eq(m, back))
                        }
                    }
                };
                match p[2] {
                    "with" => V::Agg(Rc::new(vec![V::I(r), V::I(ov)])),
                    "sat" => {
                        if signed {
                            let mx = c(mask(wd - 1), wd);
                            let mn = c(1u128 << (wd - 1), wd);
                            V::I(ite(ov, ite(slt(x, zero), mn, mx), r))
                        } else {
                            V::I(ite(ov, if op == Op::Sub { zero } else { c(mask(wd), wd) }, r))
                        }
                    }
                    _ => return err(format!("intrinsic {}", name)),
                }
            }
            "is" => V::I(c(0, 1)),
            "objectsize" => V::I(c(u128::MAX, ret.bits())),
            "ptrmask" => V::I(and(at(0), at(1))),
            "load" => {
                // llvm.load.relative: ptr + sext(load i32 (ptr + off))
                let off = if w(at(1)) < 64 { sext(at(1), 64) } else { at(1) };
                let q = add(at(0), off);
                let v = self.load(s, &Ty::Int(32), q)?.e();
                V::I(add(at(0), sext(v, 64)))
            }
            "fabs" => self.map1(a[0].clone(), &|x| Ok(and(x, c(mask(w(x) - 1), w(x)))))?,
            "ceil" | "floor" | "trunc" | "round" | "roundeven" | "rint" | "nearbyint" => {
                let g = match k {
                    "ceil" => fp::ceil,
                    "floor" => fp::floor,
                    "trunc" => fp::trunc_,
                    "round" => fp::round_away,
                    _ => fp::round_even,
                };
                self.map1(a[0].clone(), &|x| Ok(g(if w(x) == 32 { fp::F32 } else { fp::F64 }, x)))?
            }
            "copysign" => self.map2(a[0].clone(), a[1].clone(), &|x, y| Ok(concat(ext(y, w(y) - 1, 1), ext(x, 0, w(x) - 1))))?,
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => self.map2(a[0].clone(), a[1].clone(), &|x, y| {
                let f = if w(x) == 32 { fp::F32 } else { fp::F64 };
                let lt = fcmp("olt", x, y)?;
                let r = if k.starts_with("min") { ite(lt, x, y) } else { ite(lt, y, x) };
                Ok(ite(fp::nan(f, x), y, ite(fp::nan(f, y), x, r)))
            })?,
            "sqrt" | "log2" => {
                let v = cst(at(0)).ok_or(Stop::Err(format!("symbolic {}", name)))?;
                let f = f64::from_bits(v as u64);
                let r = if k == "sqrt" { f.sqrt() } else { f.log2() };
                V::I(c(r.to_bits() as u128, 64))
            }
            "fptoui" | "fptosi" => {
                let rw = ret.bits();
                self.map1(a[0].clone(), &|x| Ok(fp::to_int(if w(x) == 32 { fp::F32 } else { fp::F64 }, x, rw, k == "fptosi")))?
            }
            "vector" => {
                // reductions
                let v = match &a[0] {
                    V::Agg(v) => v.clone(),
                    _ => return err(name.to_string()),
                };
                let mut r = v[0].e();
                for x in &v[1..] {
                    let x = x.e();
                    r = match p[3] {
                        "or" => or(r, x),
                        "and" => and(r, x),
                        "add" => add(r, x),
                        "xor" => bin(Op::Xor, r, x),
                        "umax" => ite(ult(r, x), x, r),
                        "umin" => ite(ult(r, x), r, x),
                        _ => return err(name.to_string()),
                    };
                }
                V::I(r)
            }
            "x86" => match name {
                "llvm.x86.addcarry.64" => {
                    // (i8 c, i64 a, i64 b) -> { i8, i64 }
                    let t = add(add(zext(at(1), 66), zext(at(2), 66)), zext(eq_nz(at(0)), 66));
                    V::Agg(Rc::new(vec![V::I(zext(ext(t, 64, 1), 8)), V::I(trunc(t, 64))]))
                }
                "llvm.x86.subborrow.64" => {
                    let t = sub(sub(zext(at(1), 66), zext(at(2), 66)), zext(eq_nz(at(0)), 66));
                    V::Agg(Rc::new(vec![V::I(zext(ext(t, 65, 1), 8)), V::I(trunc(t, 64))]))
                }
                "llvm.x86.sse2.pause" => V::None,
                "llvm.x86.sse2.pmovmskb.128" => {
                    let v = match &a[0] {
                        V::Agg(v) => v.clone(),
                        _ => return err(name.to_string()),
                    };
                    let mut r = ext(v[0].e(), 7, 1);
                    for x in &v[1..] {
                        r = concat(ext(x.e(), 7, 1), r);
                    }
                    V::I(zext(r, 32))
                }
                _ => return err(format!("intrinsic {}", name)),
            },
            _ => return err(format!("intrinsic {}", name)),
        })
    }
}

fn eq_nz(e: E) -> E {
    not(eq(e, c(0, w(e))))
}
fn zx64(e: E) -> E {
    if w(e) < 64 {
        zext(e, 64)
    } else {
        e
    }
}

fn is_ptr_choice(x: &V, y: &V) -> bool {
    matches!((x, y), (V::I(_), V::I(_)))
}

/// little-endian join
fn join(bs: &[E]) -> E {
    let mut r = bs[0];
    for &b in &bs[1..] {
        r = concat(b, r);
    }
    r
}

fn mux(off: E, bit: i32, lo: usize, hi: usize, get: &dyn Fn(usize) -> E) -> E {
    if bit < 0 {
        return get(lo);
    }
    let half = lo + (1usize << bit);
    if half > hi {
        return mux(off, bit - 1, lo, hi, get);
    }
    let b = ext(off, bit as u16, 1);
    match cst(b) {
        Some(1) => mux(off, bit - 1, half, hi, get),
        Some(_) => mux(off, bit - 1, lo, half - 1, get),
        None => {
            let h = mux(off, bit - 1, half, hi, get);
            let l = mux(off, bit - 1, lo, half - 1, get);
            ite(b, h, l)
        }
    }
}

pub fn binop(op: &str) -> Option<Op> {
    Some(match op {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        _ => return None,
    })
}

fn fty(t: &Ty) -> X<fp::F> {
    match t {
        Ty::F64 => Ok(fp::F64),
        Ty::F32 => Ok(fp::F32),
        _ => err("floating-point type"),
    }
}
fn fbin(op: &str, t: &Ty, x: E, y: E) -> X<E> {
    let f = fty(t)?;
    Ok(match op {
        "fadd" => fp::add_(f, x, y),
        "fsub" => fp::sub_(f, x, y),
        "fmul" => fp::mul_(f, x, y),
        "fdiv" => fp::div_(f, x, y),
        _ => match (cst(x), cst(y), t) {
            (Some(a), Some(b), Ty::F64) => c((f64::from_bits(a as u64) % f64::from_bits(b as u64)).to_bits() as u128, 64),
            _ => return err(format!("symbolic {}", op)),
        },
    })
}

/// IEEE comparison over bit patterns.
fn fcmp(p: &str, x: E, y: E) -> X<E> {
    let wd = w(x);
    let (eb, _mb) = if wd == 64 { (11u16, 52u16) } else { (8, 23) };
    let inf = (mask(eb)) << (wd - 1 - eb);
    let mag = |e: E| and(e, c(mask(wd - 1), wd));
    let nan = |e: E| ult(c(inf, wd), mag(e));
    let un = or(nan(x), nan(y));
    let ord = not(un);
    let zero = |e: E| eq(mag(e), c(0, wd));
    let both0 = and(zero(x), zero(y));
    let feq = or(eq(x, y), both0);
    let sx = ext(x, wd - 1, 1);
    let sy = ext(y, wd - 1, 1);
    // x < y for ordered operands
    let lt = and(
        not(both0),
        ite(sx, ite(sy, ult(mag(y), mag(x)), tt()), ite(sy, ff(), ult(mag(x), mag(y)))),
    );
    let gt = and(not(feq), not(lt));
    Ok(match p {
        "false" => ff(),
        "true" => tt(),
        "ord" => ord,
        "uno" => un,
        "oeq" => and(ord, feq),
        "ogt" => and(ord, gt),
        "oge" => and(ord, or(gt, feq)),
        "olt" => and(ord, lt),
        "ole" => and(ord, or(lt, feq)),
        "one" => and(ord, not(feq)),
        "ueq" => or(un, feq),
        "ugt" => or(un, gt),
        "uge" => or(un, or(gt, feq)),
        "ult" => or(un, lt),
        "ule" => or(un, or(lt, feq)),
        "une" => or(un, not(feq)),
        _ => return err("fcmp"),
    })
}

/// f32 bits -> f64 bits
fn fpext(e: E) -> E {
    let s = ext(e, 31, 1);
    let ex = ext(e, 23, 8);
    let m = ext(e, 0, 23);
    let m52 = concat(m, c(0, 29));
    let normal = concat(s, concat(add(zext(ex, 11), c(1023 - 127, 11)), m52));
    let special = concat(s, concat(c(0x7ff, 11), m52));
    // subnormals: normalise by the position of the leading bit
    let mut sub_ = concat(s, c(0, 63));
    for i in 0..23u16 {
        // leading bit at i: value = 2^(i-149) * 1.f
        let expv = (1023i32 + i as i32 - 149) as u128;
        let frac = if i == 0 { c(0, 52) } else { concat(ext(m, 0, i), c(0, 52 - i)) };
        let v = concat(s, concat(c(expv, 11), frac));
        sub_ = ite(ext(m, i, 1), v, sub_);
    }
    ite(eq(ex, c(255, 8)), special, ite(eq(ex, c(0, 8)), sub_, normal))
}
