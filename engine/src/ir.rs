//! Textual LLVM IR: lazily parsed functions and globals.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Meta,
    Label,
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().min(64),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                round_up(b, self.align())
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !*packed {
                        o = round_up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed {
                    o
                } else {
                    round_up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        o = round_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..))
    }
}
pub fn round_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

/// Constant initialiser / operand
#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Null,
    Undef,
    Zero,
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, K)>>),
    Splat(Rc<(Ty, K)>),
    Global(Rc<str>),
    Gep(Ty, Rc<(Ty, K)>, Rc<Vec<(Ty, K)>>),
    Cast(&'static str, Rc<(Ty, K)>, Ty),
    Bin(Rc<str>, Rc<(Ty, K)>, Rc<(Ty, K)>),
    Float(f64),
}

#[derive(Clone, Debug)]
pub enum O {
    Reg(u32),
    K(K),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(&'static str, Ty, O, O),
    ICmp(Rc<str>, Ty, O, O),
    FCmp(Rc<str>, Ty, O, O),
    Cast(&'static str, Ty, O, Ty),
    Load(Ty, O),
    Store(Ty, O, O),
    Alloca(Ty, Option<(Ty, O)>, u64),
    Gep(Ty, O, Vec<(Ty, O)>),
    Select(Ty, O, O, O, Ty),
    Phi(Ty, Vec<(O, u32)>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, O)>),
    Unreachable,
    Call { callee: O, ret: Ty, args: Vec<(Ty, O)>, normal: Option<u32> },
    ExtractV(Ty, O, Vec<usize>),
    InsertV(Ty, O, Ty, O, Vec<usize>),
    ExtractE(Ty, O, Ty, O),
    InsertE(Ty, O, O, Ty, O),
    Shuffle(Ty, O, O, Vec<i64>),
    Freeze(Ty, O),
    FNeg(Ty, O),
    AtomicRmw(Rc<str>, O, Ty, O),
    CmpXchg(O, Ty, O, O),
    Fence,
    LandingPad,
    Resume,
    Unsupported(String),
}

pub struct Block {
    pub ins: Vec<(Option<u32>, Ins)>,
    /// debug location (metadata number, 0 = none) of each instruction
    pub dbg: Vec<u32>,
    pub seen: std::cell::Cell<bool>,
}
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32, u64)>, // type, reg, byval size
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub vararg: bool,
}

#[derive(Clone)]
pub struct Global {
    pub name: Rc<str>,
    pub ty: Ty,
    pub init: Option<K>,
    pub konst: bool,
    pub align: u64,
}

pub struct Module {
    pub text: Rc<str>,
    pub fdefs: HashMap<Rc<str>, (usize, usize)>,
    pub fdecls: Vec<Rc<str>>,
    pub globals: Vec<(Rc<str>, usize, usize)>, // name, line span
    pub aliases: HashMap<Rc<str>, Rc<str>>,
    pub types: HashMap<String, Ty>,
    pub meta: Vec<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),     // word / number
    L(String),      // %name
    G(String),      // @name
    M,              // metadata or attribute group reference
    S(Vec<u8>),     // string
    P(char),        // punctuation
}

pub struct Lex<'a> {
    pub t: Vec<T<'a>>,
    pub i: usize,
    pub types: &'a HashMap<String, Ty>,
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
            o.push(h);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn lex<'a>(s: &'a str, types: &'a HashMap<String, Ty>) -> Lex<'a> {
    let b = s.as_bytes();
    let mut t = vec![];
    let mut i = 0;
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+';
    while i < b.len() {
        let ch = b[i];
        match ch {
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1
                }
            }
            b'%' | b'@' => {
                i += 1;
                let name;
                if b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1
                    }
                    name = String::from_utf8_lossy(&unescape(&s[st..i])).into_owned();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && isw(b[i]) {
                        i += 1
                    }
                    name = s[st..i].to_string();
                }
                t.push(if ch == b'%' { T::L(name) } else { T::G(name) });
            }
            b'!' | b'#' => {
                i += 1;
                while i < b.len() && isw(b[i]) {
                    i += 1
                }
                t.push(T::M);
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1
                }
                t.push(T::S(unescape(&s[st..i])));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 1;
            }
            _ if isw(ch) => {
                let st = i;
                while i < b.len() && isw(b[i]) {
                    i += 1
                }
                if s[st..i].bytes().all(|c| c == b'.') {
                    t.push(T::P('.'));
                } else {
                    t.push(T::W(&s[st..i]));
                }
            }
            _ => {
                t.push(T::P(ch as char));
                i += 1;
            }
        }
    }
    Lex { t, i: 0, types }
}

pub struct FnCtx {
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
}

type R<X> = Result<X, String>;

impl<'a> Lex<'a> {
    pub fn peek(&self) -> Option<&T<'a>> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> R<T<'a>> {
        let x = self.t.get(self.i).cloned().ok_or("eof")?;
        self.i += 1;
        Ok(x)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {} at {:?}", c, &self.t[self.i.min(self.t.len())..(self.i + 6).min(self.t.len())]))
        }
    }
    fn eat_w(&mut self, s: &str) -> bool {
        if let Some(T::W(x)) = self.peek() {
            if *x == s {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn word(&self) -> Option<&'a str> {
        match self.peek() {
            Some(T::W(x)) => Some(x),
            _ => None,
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.exp('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                T::P('(') => d += 1,
                T::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            T::W(x) => x.parse().map_err(|_| format!("number {}", x)),
            x => Err(format!("number {:?}", x)),
        }
    }
    fn starts_type(&self) -> bool {
        match self.peek() {
            Some(T::P('[')) | Some(T::P('{')) | Some(T::P('<')) => true,
            Some(T::L(_)) => true,
            Some(T::W(x)) => {
                matches!(*x, "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "metadata" | "label" | "token")
                    || (x.starts_with('i') && x.len() > 1 && x[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            _ => false,
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            T::W("void") => Ok(Ty::Void),
            T::W("ptr") => {
                if self.eat_w("addrspace") {
                    self.skip_parens()?;
                }
                Ok(Ty::Ptr)
            }
            T::W("float") => Ok(Ty::F32),
            T::W("double") => Ok(Ty::F64),
            T::W("metadata") => Ok(Ty::Meta),
            T::W("label") => Ok(Ty::Label),
            T::W(x) if x.starts_with('i') && x[1..].parse::<u16>().is_ok() => Ok(Ty::Int(x[1..].parse().unwrap())),
            T::W("half") | T::W("x86_fp80") | T::W("token") | T::W("bfloat") | T::W("fp128") => Ok(Ty::Other),
            T::L(n) => self.types.get(&n).cloned().ok_or(format!("type %{}", n)),
            T::P('[') => {
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("array".into());
                }
                let t = self.ty()?;
                self.exp(']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            T::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let f = self.fields()?;
                    self.exp('>')?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n = self.num()?;
                if !self.eat_w("x") {
                    return Err("vector".into());
                }
                let t = self.ty()?;
                self.exp('>')?;
                Ok(Ty::Vec(n, Rc::new(t)))
            }
            T::P('{') => {
                let f = self.fields()?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            x => Err(format!("type at {:?} {:?}", x, &self.t[self.i.saturating_sub(4)..(self.i + 4).min(self.t.len())])),
        }
    }
    fn fields(&mut self) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.eat_p('}') {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat_p('}') {
                return Ok(f);
            }
            self.exp(',')?;
        }
    }
    /// Skip parameter/return attributes and calling conventions.
    fn attrs(&mut self) -> R<u64> {
        let mut byval = 0;
        loop {
            match self.peek() {
                Some(T::W("align")) => {
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else {
                        self.i += 1;
                    }
                }
                Some(T::W("byval")) => {
                    self.i += 1;
                    self.exp('(')?;
                    byval = self.ty()?.size();
                    self.exp(')')?;
                }
                Some(T::W(x)) => {
                    if self.starts_type() || is_const_word(x) {
                        return Ok(byval);
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    }
                }
                Some(T::M) => {
                    self.i += 1;
                }
                Some(T::S(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(byval),
            }
        }
    }
    fn tk(&mut self) -> R<(Ty, K)> {
        let t = self.ty()?;
        let k = self.konst(&t)?;
        Ok((t, k))
    }
    fn list(&mut self, close: char) -> R<Vec<(Ty, K)>> {
        let mut v = vec![];
        if self.eat_p(close) {
            return Ok(v);
        }
        loop {
            v.push(self.tk()?);
            if self.eat_p(close) {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    pub fn konst(&mut self, t: &Ty) -> R<K> {
        match self.next()? {
            T::G(n) => Ok(K::Global(n.into())),
            T::S(s) => Ok(K::Bytes(Rc::new(s))),
            T::P('{') => Ok(K::Agg(Rc::new(self.list('}')?))),
            T::P('[') => Ok(K::Agg(Rc::new(self.list(']')?))),
            T::P('<') => {
                if self.eat_p('{') {
                    let l = self.list('}')?;
                    self.exp('>')?;
                    Ok(K::Agg(Rc::new(l)))
                } else {
                    Ok(K::Agg(Rc::new(self.list('>')?)))
                }
            }
            T::W("true") => Ok(K::Int(1)),
            T::W("false") => Ok(K::Int(0)),
            T::W("null") => Ok(K::Null),
            T::W("none") => Ok(K::Null),
            T::W("undef") | T::W("poison") => Ok(K::Undef),
            T::W("zeroinitializer") => Ok(K::Zero),
            T::W("splat") => {
                self.exp('(')?;
                let x = self.tk()?;
                self.exp(')')?;
                Ok(K::Splat(Rc::new(x)))
            }
            T::W("getelementptr") => {
                loop {
                    match self.peek() {
                        Some(T::W("inbounds")) | Some(T::W("nuw")) | Some(T::W("nusw")) => self.i += 1,
                        Some(T::W("inrange")) => {
                            self.i += 1;
                            self.skip_parens()?;
                        }
                        _ => break,
                    }
                }
                self.exp('(')?;
                let bt = self.ty()?;
                self.exp(',')?;
                let base = self.tk()?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    ix.push(self.tk()?);
                }
                self.exp(')')?;
                Ok(K::Gep(bt, Rc::new(base), Rc::new(ix)))
            }
            T::W(op) if matches!(op, "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" | "addrspacecast") => {
                self.exp('(')?;
                let x = self.tk()?;
                if !self.eat_w("to") {
                    return Err("cast const".into());
                }
                let t = self.ty()?;
                self.exp(')')?;
                let op = match op {
                    "trunc" => "trunc",
                    "zext" => "zext",
                    "sext" => "sext",
                    _ => "bitcast",
                };
                Ok(K::Cast(op, Rc::new(x), t))
            }
            T::W(op) if matches!(op, "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr") => {
                while matches!(self.word(), Some("nuw") | Some("nsw")) {
                    self.i += 1;
                }
                self.exp('(')?;
                let x = self.tk()?;
                self.exp(',')?;
                let y = self.tk()?;
                self.exp(')')?;
                Ok(K::Bin(op.into(), Rc::new(x), Rc::new(y)))
            }
            T::W(x) => {
                match t {
                    Ty::F32 | Ty::F64 => {
                        if let Some(h) = x.strip_prefix("0x") {
                            return Ok(K::Float(f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)));
                        }
                        if let Some(h) = x.strip_prefix("f0x") {
                            let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                            return Ok(if *t == Ty::F32 {
                                K::Float(f32::from_bits(b as u32) as f64)
                            } else {
                                K::Float(f64::from_bits(b))
                            });
                        }
                        let y = x.trim_start_matches('+');
                        if let Ok(f) = y.parse::<f64>() {
                            return Ok(K::Float(f));
                        }
                        return Err(format!("float {}", x));
                    }
                    _ => {}
                }
                if let Ok(v) = x.parse::<i128>() {
                    return Ok(K::Int(v as u128));
                }
                if let Ok(v) = x.parse::<u128>() {
                    return Ok(K::Int(v));
                }
                Err(format!("const {}", x))
            }
            x => Err(format!("const {:?}", x)),
        }
    }
    fn opd(&mut self, t: &Ty, f: &mut FnCtx) -> R<O> {
        if let Some(T::L(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(O::Reg(f.reg(&n)));
        }
        Ok(O::K(self.konst(t)?))
    }
    fn topd(&mut self, f: &mut FnCtx) -> R<(Ty, O)> {
        let t = self.ty()?;
        self.attrs()?;
        let o = self.opd(&t, f)?;
        Ok((t, o))
    }
    fn label(&mut self, f: &mut FnCtx) -> R<u32> {
        if !self.eat_w("label") {
            return Err("label".into());
        }
        match self.next()? {
            T::L(n) => Ok(f.blk(&n)),
            x => Err(format!("label {:?}", x)),
        }
    }
    fn flags(&mut self) {
        while let Some(T::W(x)) = self.peek() {
            if matches!(
                *x,
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "volatile" | "atomic"
                    | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "weak" | "inrange"
            ) {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn align_suffix(&mut self) -> R<u64> {
        while self.eat_p(',') {
            if self.eat_w("align") {
                return self.num();
            }
            // anything else (metadata)
            break;
        }
        Ok(0)
    }

    fn ins(&mut self, f: &mut FnCtx) -> R<(Option<u32>, Ins)> {
        let mut dst = None;
        if let (Some(T::L(n)), Some(T::P('='))) = (self.t.get(self.i), self.t.get(self.i + 1)) {
            let n = n.clone();
            self.i += 2;
            dst = Some(f.reg(&n));
        }
        let op = match self.next()? {
            T::W(x) => x,
            x => return Err(format!("op {:?}", x)),
        };
        let bins = [
            "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub",
            "fmul", "fdiv", "frem",
        ];
        if let Some(b) = bins.iter().find(|b| **b == op) {
            self.flags();
            let t = self.ty()?;
            let a = self.opd(&t, f)?;
            self.exp(',')?;
            let c = self.opd(&t, f)?;
            return Ok((dst, Ins::Bin(b, t, a, c)));
        }
        let casts = [
            "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext",
            "fptrunc", "addrspacecast", "ptrtoaddr",
        ];
        if let Some(b) = casts.iter().find(|b| **b == op) {
            self.flags();
            let (t, o) = self.topd(f)?;
            if !self.eat_w("to") {
                return Err("cast".into());
            }
            let t2 = self.ty()?;
            return Ok((dst, Ins::Cast(b, t, o, t2)));
        }
        let i = match op {
            "icmp" | "fcmp" => {
                self.flags();
                let p = match self.next()? {
                    T::W(x) => x,
                    _ => return Err("cmp".into()),
                };
                let t = self.ty()?;
                let a = self.opd(&t, f)?;
                self.exp(',')?;
                let c = self.opd(&t, f)?;
                if op == "icmp" {
                    Ins::ICmp(p.into(), t, a, c)
                } else {
                    Ins::FCmp(p.into(), t, a, c)
                }
            }
            "load" => {
                self.flags();
                let t = self.ty()?;
                self.exp(',')?;
                let (_, p) = self.topd(f)?;
                Ins::Load(t, p)
            }
            "store" => {
                self.flags();
                let (t, v) = self.topd(f)?;
                self.exp(',')?;
                let (_, p) = self.topd(f)?;
                Ins::Store(t, v, p)
            }
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty()?;
                let mut n = None;
                let mut al = 0;
                while self.eat_p(',') {
                    if self.eat_w("align") {
                        al = self.num()?;
                    } else if self.starts_type() {
                        n = Some(self.topd(f)?);
                    } else {
                        break;
                    }
                }
                Ins::Alloca(t, n, al)
            }
            "getelementptr" => {
                self.flags();
                if self.word() == Some("inrange") {
                    self.i += 1;
                    self.skip_parens()?;
                }
                let t = self.ty()?;
                self.exp(',')?;
                let (pt, p) = self.topd(f)?;
                if pt.is_agg() {
                    return Err("vector gep".into());
                }
                let mut ix = vec![];
                while self.eat_p(',') {
                    if !self.starts_type() {
                        break;
                    }
                    ix.push(self.topd(f)?);
                }
                Ins::Gep(t, p, ix)
            }
            "select" => {
                self.flags();
                let (ct, cnd) = self.topd(f)?;
                self.exp(',')?;
                let (t, a) = self.topd(f)?;
                self.exp(',')?;
                let (_, b) = self.topd(f)?;
                Ins::Select(t, cnd, a, b, ct)
            }
            "phi" => {
                self.flags();
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.exp('[')?;
                    let o = self.opd(&t, f)?;
                    self.exp(',')?;
                    let b = match self.next()? {
                        T::L(n) => f.blk(&n),
                        _ => return Err("phi".into()),
                    };
                    self.exp(']')?;
                    v.push((o, b));
                    if self.is_p(',') && self.t.get(self.i + 1) == Some(&T::P('[')) {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                Ins::Phi(t, v)
            }
            "br" => {
                if self.word() == Some("label") {
                    Ins::Br(self.label(f)?)
                } else {
                    let (_, cnd) = self.topd(f)?;
                    self.exp(',')?;
                    let a = self.label(f)?;
                    self.exp(',')?;
                    let b = self.label(f)?;
                    Ins::CondBr(cnd, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.topd(f)?;
                self.exp(',')?;
                let d = self.label(f)?;
                self.exp('[')?;
                let mut cs = vec![];
                while !self.eat_p(']') {
                    let (_, k) = self.tk()?;
                    self.exp(',')?;
                    let l = self.label(f)?;
                    match k {
                        K::Int(v) => cs.push((v, l)),
                        _ => return Err("switch const".into()),
                    }
                }
                Ins::Switch(t, v, d, cs)
            }
            "ret" => {
                if self.eat_w("void") {
                    Ins::Ret(None)
                } else {
                    Ins::Ret(Some(self.topd(f)?))
                }
            }
            "unreachable" => Ins::Unreachable,
            "resume" => Ins::Resume,
            "landingpad" => Ins::LandingPad,
            "fence" => Ins::Fence,
            "freeze" => {
                let (t, o) = self.topd(f)?;
                Ins::Freeze(t, o)
            }
            "fneg" => {
                self.flags();
                let (t, o) = self.topd(f)?;
                Ins::FNeg(t, o)
            }
            "extractvalue" => {
                let (t, o) = self.topd(f)?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    match self.word() {
                        Some(x) if x.parse::<usize>().is_ok() => {
                            ix.push(x.parse().unwrap());
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                Ins::ExtractV(t, o, ix)
            }
            "insertvalue" => {
                let (t, o) = self.topd(f)?;
                self.exp(',')?;
                let (t2, v) = self.topd(f)?;
                let mut ix = vec![];
                while self.eat_p(',') {
                    match self.word() {
                        Some(x) if x.parse::<usize>().is_ok() => {
                            ix.push(x.parse().unwrap());
                            self.i += 1;
                        }
                        _ => break,
                    }
                }
                Ins::InsertV(t, o, t2, v, ix)
            }
            "extractelement" => {
                let (t, o) = self.topd(f)?;
                self.exp(',')?;
                let (t2, i) = self.topd(f)?;
                Ins::ExtractE(t, o, t2, i)
            }
            "insertelement" => {
                let (t, o) = self.topd(f)?;
                self.exp(',')?;
                let (_, v) = self.topd(f)?;
                self.exp(',')?;
                let (t2, i) = self.topd(f)?;
                Ins::InsertE(t, o, v, t2, i)
            }
            "shufflevector" => {
                let (t, a) = self.topd(f)?;
                self.exp(',')?;
                let (_, b) = self.topd(f)?;
                self.exp(',')?;
                let (mt, m) = self.tk()?;
                let n = match mt {
                    Ty::Vec(n, _) => n as usize,
                    _ => return Err("shuffle".into()),
                };
                let mk = match m {
                    K::Zero => vec![0; n],
                    K::Undef => vec![-1; n],
                    K::Splat(x) => match x.1 {
                        K::Int(v) => vec![v as i64; n],
                        _ => vec![-1; n],
                    },
                    K::Agg(v) => v
                        .iter()
                        .map(|x| match x.1 {
                            K::Int(v) => v as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                Ins::Shuffle(t, a, b, mk)
            }
            "atomicrmw" => {
                self.flags();
                let o = match self.next()? {
                    T::W(x) => x,
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.topd(f)?;
                self.exp(',')?;
                let (t, v) = self.topd(f)?;
                Ins::AtomicRmw(o.into(), p, t, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.topd(f)?;
                self.exp(',')?;
                let (t, a) = self.topd(f)?;
                self.exp(',')?;
                let (_, b) = self.topd(f)?;
                Ins::CmpXchg(p, t, a, b)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    self.eat_w("call");
                }
                self.flags();
                self.attrs()?;
                let ret = self.ty()?;
                // explicit function type
                if self.is_p('(') {
                    self.skip_parens()?;
                }
                let callee = if self.eat_w("asm") {
                    return Ok((dst, Ins::Unsupported("inline asm".into())));
                } else {
                    self.opd(&Ty::Ptr, f)?
                };
                self.exp('(')?;
                let mut args = vec![];
                if !self.eat_p(')') {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Meta {
                            let mut d = 0;
                            loop {
                                match self.peek() {
                                    Some(T::P('(')) => d += 1,
                                    Some(T::P(')')) if d == 0 => break,
                                    Some(T::P(')')) => d -= 1,
                                    Some(T::P(',')) if d == 0 => break,
                                    None => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                            args.push((t, O::K(K::Undef)));
                        } else {
                            self.attrs()?;
                            let o = self.opd(&t, f)?;
                            args.push((t, o));
                        }
                        if self.eat_p(')') {
                            break;
                        }
                        self.exp(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !self.eat_w("to") {
                        self.next()?;
                    }
                    normal = Some(self.label(f)?);
                }
                Ins::Call { callee, ret, args, normal }
            }
            _ => Ins::Unsupported(op.to_string()),
        };
        Ok((dst, i))
    }
}

fn is_const_word(x: &str) -> bool {
    matches!(
        x,
        "true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "asm"
            | "bitcast" | "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" | "trunc" | "zext" | "sext"
    ) || x.as_bytes()[0].is_ascii_digit()
        || (x.len() > 1 && (x.as_bytes()[0] == b'-' || x.as_bytes()[0] == b'+') && x.as_bytes()[1].is_ascii_digit())
        || x.starts_with("f0x")
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text: Rc<str> = std::fs::read_to_string(path).map_err(|e| e.to_string())?.into();
        let mut m = Module {
            text: text.clone(),
            fdefs: HashMap::new(),
            fdecls: vec![],
            globals: vec![],
            aliases: HashMap::new(),
            types: HashMap::new(),
            meta: vec![],
        };
        let mut pos = 0;
        let bytes = text.as_bytes();
        while pos < bytes.len() {
            let end = text[pos..].find('\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..end];
            if line.starts_with("define ") {
                let name = gname(line).ok_or("define name")?;
                let fend = text[pos..].find("\n}\n").map(|x| pos + x + 2).ok_or("define end")?;
                m.fdefs.insert(name.into(), (pos, fend));
                pos = fend + 1;
                continue;
            } else if line.starts_with("declare ") {
                m.fdecls.push(gname(line).ok_or("declare name")?.into());
            } else if line.starts_with('@') {
                let name = gname(line).ok_or("global name")?;
                if line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ") {
                    // @a = alias ty, ptr @b
                    let idx = line.rfind("ptr @").ok_or("alias")?;
                    let tgt = gname(&line[idx..]).ok_or("alias target")?;
                    m.aliases.insert(name.into(), tgt.into());
                } else {
                    m.globals.push((name.into(), pos, end));
                }
            } else if line.starts_with('%') && line.contains(" = type ") {
                let empty = HashMap::new();
                let mut l = lex(line, &empty);
                let n = match l.next()? {
                    T::L(n) => n,
                    _ => return Err("type".into()),
                };
                l.i += 2;
                let t = if l.word() == Some("opaque") { Ty::Other } else { l.ty().unwrap_or(Ty::Other) };
                m.types.insert(n, t);
            }
            if line.starts_with('!') {
                if let Some(k) = line[1..].find(' ').and_then(|e| line[1..1 + e].parse::<usize>().ok()) {
                    if m.meta.len() <= k {
                        m.meta.resize(k + 1, (0, 0));
                    }
                    m.meta[k] = (pos, end);
                }
            }
            pos = end + 1;
        }
        Ok(m)
    }

    fn mline(&self, k: u32) -> &str {
        let (a, b) = self.meta.get(k as usize).copied().unwrap_or((0, 0));
        &self.text[a..b]
    }
    /// The subprogram a scope belongs to: (linkage name or name, file).
    pub fn subprogram(&self, mut k: u32) -> Option<(String, String)> {
        for _ in 0..64 {
            let l = self.mline(k);
            if l.contains("!DISubprogram(") {
                let n = mstr(l, "linkageName: ").or_else(|| mstr(l, "name: ")).unwrap_or_default();
                let f = mref(l, "file: !")
                    .map(|f| {
                        let l = self.mline(f);
                        let n = mstr(l, "filename: ").unwrap_or_default();
                        match mstr(l, "directory: ") {
                            Some(d) if !n.starts_with('/') => format!("{}/{}", d, n),
                            _ => n,
                        }
                    })
                    .unwrap_or_default();
                return Some((n, f));
            }
            k = mref(l, "scope: !")?;
        }
        None
    }
    /// Inline chain of a location, innermost first: (function, file, line).
    pub fn chain(&self, mut k: u32) -> Vec<(String, String, u32)> {
        let mut out = vec![];
        while k != 0 {
            let l = self.mline(k);
            let line = mref(l, "line: ").unwrap_or(0);
            match mref(l, "scope: !").and_then(|s| self.subprogram(s)) {
                Some((n, f)) => out.push((n, f, line)),
                None => break,
            }
            k = mref(l, "inlinedAt: !").unwrap_or(0);
        }
        out
    }

    pub fn parse_global(&self, span: (usize, usize)) -> R<Global> {
        let line = &self.text[span.0..span.1];
        let mut l = lex(line, &self.types);
        let name = match l.next()? {
            T::G(n) => n,
            _ => return Err("global".into()),
        };
        l.exp('=')?;
        let mut external = false;
        let konst;
        loop {
            match l.next()? {
                T::W("constant") => {
                    konst = true;
                    break;
                }
                T::W("global") => {
                    konst = false;
                    break;
                }
                T::W("external") | T::W("extern_weak") => external = true,
                T::P('(') => {
                    l.i -= 1;
                    l.skip_parens()?;
                }
                _ => {}
            }
        }
        let ty = l.ty()?;
        let init = if external { None } else { Some(l.konst(&ty)?) };
        let mut align = ty.align();
        while l.i < l.t.len() {
            if l.eat_w("align") {
                align = l.num()?;
            } else {
                l.i += 1;
            }
        }
        Ok(Global { name: name.into(), ty, init, konst, align: align.max(1) })
    }

    pub fn parse_func(&self, name: &str) -> R<Func> {
        let &(a, b) = self.fdefs.get(name).ok_or("no such function")?;
        let text = &self.text[a..b];
        let brace = text.find("{\n").ok_or("body")?;
        // the header may contain '{' in types, find the last one on the first line
        let nl = text.find('\n').unwrap();
        let _ = brace;
        let head = &text[..nl];
        let body = &text[nl + 1..];
        let mut f = FnCtx { regs: HashMap::new(), blocks: HashMap::new() };
        let mut params = vec![];
        let mut vararg = false;
        {
            let mut l = lex(head, &self.types);
            // skip to @name
            while !matches!(l.peek(), Some(T::G(_))) {
                l.i += 1;
            }
            l.i += 1;
            l.exp('(')?;
            if !l.eat_p(')') {
                let mut n = 0;
                loop {
                    if l.eat_p('.') {
                        vararg = true;
                        l.exp(')')?;
                        break;
                    }
                    let t = l.ty()?;
                    let bv = l.attrs()?;
                    let pname = match l.peek() {
                        Some(T::L(x)) => {
                            let x = x.clone();
                            l.i += 1;
                            x
                        }
                        _ => format!("{}", n),
                    };
                    n += 1;
                    let r = f.reg(&pname);
                    params.push((t, r, bv));
                    if l.eat_p(')') {
                        break;
                    }
                    l.exp(',')?;
                }
            }
        }
        // entry block label: unnamed entry takes the next number
        let mut blocks: Vec<(String, Vec<(usize, usize)>)> = vec![];
        let mut cur: Vec<(usize, usize)> = vec![];
        let mut cur_name: Option<String> = None;
        let mut pos = 0;
        let entry_name = params.len().to_string();
        for line in body.split_inclusive('\n') {
            let st = pos;
            pos += line.len();
            let l = line.trim_end();
            if l.is_empty() || l == "}" {
                continue;
            }
            let fc = l.as_bytes()[0];
            if fc != b' ' && fc != b'\t' {
                if fc == b';' {
                    continue;
                }
                // label
                let nm = if fc == b'"' {
                    let e = l[1..].find('"').unwrap();
                    String::from_utf8_lossy(&unescape(&l[1..1 + e])).into_owned()
                } else {
                    l[..l.find(':').ok_or("label")?].to_string()
                };
                if cur_name.is_some() || !cur.is_empty() {
                    blocks.push((cur_name.take().unwrap_or(entry_name.clone()), std::mem::take(&mut cur)));
                }
                cur_name = Some(nm);
                continue;
            }
            let cont = l.starts_with("   ") || l.starts_with("  ]");
            if cont {
                if let Some(x) = cur.last_mut() {
                    x.1 = pos;
                    continue;
                }
            }
            cur.push((st, pos));
        }
        blocks.push((cur_name.take().unwrap_or(entry_name), cur));
        for (n, _) in &blocks {
            f.blk(n);
        }
        let mut out = vec![];
        for (_, spans) in &blocks {
            let mut v = vec![];
            for &(s, e) in spans {
                let txt = &body[s..e];
                let mut l = lex(txt, &self.types);
                match l.ins(&mut f) {
                    Ok(x) => v.push(x),
                    Err(er) => v.push((None, Ins::Unsupported(format!("{} in `{}`", er, txt.trim())))),
                }
            }
            let dbg = spans.iter().map(|&(s, e)| body[s..e].rfind("!dbg !").and_then(|i| num_at(&body[s + i + 6..e])).unwrap_or(0)).collect();
            out.push(Block { ins: v, dbg, seen: Default::default() });
        }
        Ok(Func { name: name.into(), params, nregs: f.regs.len(), blocks: out, vararg })
    }
}

fn num_at(s: &str) -> Option<u32> {
    let e = s.bytes().position(|c| !c.is_ascii_digit()).unwrap_or(s.len());
    s[..e].parse().ok()
}
fn mref(l: &str, key: &str) -> Option<u32> {
    let i = l.find(key)?;
    num_at(&l[i + key.len()..])
}
fn mstr(l: &str, key: &str) -> Option<String> {
    let i = l.find(key)?;
    let r = l[i + key.len()..].strip_prefix('"')?;
    let e = r.find('"')?;
    Some(r[..e].to_string())
}

/// the first @name on the line
fn gname(line: &str) -> Option<String> {
    let i = line.find('@')?;
    let r = &line[i + 1..];
    if let Some(q) = r.strip_prefix('"') {
        let e = q.find('"')?;
        Some(String::from_utf8_lossy(&unescape(&q[..e])).into_owned())
    } else {
        let e = r
            .bytes()
            .position(|c| !(c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'))
            .unwrap_or(r.len());
        Some(r[..e].to_string())
    }
}
