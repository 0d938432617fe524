//! A reader for textual LLVM IR (opaque pointers), decoding functions on demand
//! into a register-machine form.
use crate::expr::FxMap;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// store size
    pub fn bytes(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn scalar_w(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(_, t) => t.scalar_w(),
            _ => 0,
        }
    }
    pub fn lanes(&self) -> u32 {
        match self {
            Ty::Vec(n, _) => *n as u32,
            _ => 0,
        }
    }
}

/// A constant value.
#[derive(Clone, Debug)]
pub enum K {
    I(u128),
    A(Vec<K>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    C(crate::exec::V),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub copies: Vec<(u32, Opd)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Same,
    Bitcast,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin { op: crate::expr::Op, w: u8, lanes: u32, d: u32, a: Opd, b: Opd },
    FBin { op: u8, ty: Ty, d: u32, a: Opd, b: Opd },
    FCmp { pred: String, ty: Ty, d: u32, a: Opd, b: Opd },
    FNeg { ty: Ty, d: u32, a: Opd },
    Icmp { p: Pred, w: u8, lanes: u32, d: u32, a: Opd, b: Opd },
    Cast { k: CastK, from: Ty, to: Ty, d: u32, a: Opd },
    Select { d: u32, c: Opd, a: Opd, b: Opd, ty: Ty, vec: bool },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u8, i64)> },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { d: u32, off: u64 },
    DynAlloca,
    Call { d: Option<u32>, f: Callee, args: Vec<Opd>, ret: Ty, normal: Option<Edge>, argtys: Rc<Vec<Ty>> },
    Br { e: Edge },
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u8, cases: Vec<(u128, Edge)>, def: Edge, map: FxMap<u128, u32> },
    Ret { v: Option<Opd> },
    Unreachable,
    ExtractValue { d: u32, a: Opd, idx: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractElement { d: u32, a: Opd, i: Opd },
    InsertElement { d: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, a: Opd, b: Opd, mask: Vec<i64> },
    Rmw { d: u32, op: String, w: u8, p: Opd, v: Opd },
    CmpXchg { d: u32, w: u8, p: Opd, c: Opd, n: Opd },
    Copy { d: u32, a: Opd },
    Bad(String),
}

pub struct Func {
    pub idx: u32,
    pub name: String,
    pub nregs: u32,
    pub args: Vec<u32>,
    pub blocks: Vec<Vec<Ins>>,
    pub frame: u64,
}

pub struct FnDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // text range of the whole define
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub ro: bool,
    pub init: Option<(usize, usize)>,
    pub size: u64,
}

pub struct Module {
    pub text: Rc<Vec<u8>>,
    pub types: HashMap<String, Ty>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub fn fn_addr(i: u32) -> u64 {
    FN_BASE + i as u64 * 16
}
pub fn glob_addr(i: u32) -> u64 {
    (i as u64 + 1) << 32
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Num(String),
    Str(Vec<u8>),
    P(u8),
    Meta,
    AttrG,
    Dots,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    pub pos: usize,
    end: usize,
    peeked: Option<(Tok, usize)>,
}

fn unq(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' {
            if i + 1 < s.len() && s[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8], pos: usize, end: usize) -> Lex<'a> {
        Lex { s, pos, end, peeked: None }
    }
    fn ident(&mut self) -> String {
        // at first char after sigil
        if self.s[self.pos] == b'"' {
            let st = self.pos + 1;
            let mut i = st;
            while self.s[i] != b'"' {
                i += 1
            }
            self.pos = i + 1;
            return String::from_utf8_lossy(&unq(&self.s[st..i])).to_string();
        }
        let st = self.pos;
        while self.pos < self.end {
            let c = self.s[self.pos];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
                self.pos += 1
            } else {
                break;
            }
        }
        String::from_utf8_lossy(&self.s[st..self.pos]).to_string()
    }
    fn raw(&mut self) -> Tok {
        loop {
            if self.pos >= self.end {
                return Tok::Eof;
            }
            let c = self.s[self.pos];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.pos += 1;
                continue;
            }
            if c == b';' {
                while self.pos < self.end && self.s[self.pos] != b'\n' {
                    self.pos += 1
                }
                continue;
            }
            break;
        }
        let c = self.s[self.pos];
        match c {
            b'%' => {
                self.pos += 1;
                Tok::Local(self.ident())
            }
            b'@' => {
                self.pos += 1;
                Tok::Global(self.ident())
            }
            b'!' => {
                self.pos += 1;
                // !name or !123 or !{...}
                while self.pos < self.end
                    && (self.s[self.pos].is_ascii_alphanumeric()
                        || self.s[self.pos] == b'_'
                        || self.s[self.pos] == b'.')
                {
                    self.pos += 1
                }
                Tok::Meta
            }
            b'#' => {
                self.pos += 1;
                self.ident();
                Tok::AttrG
            }
            b'"' => {
                let st = self.pos + 1;
                let mut i = st;
                while self.s[i] != b'"' {
                    i += 1
                }
                self.pos = i + 1;
                Tok::Str(unq(&self.s[st..i]))
            }
            b'c' if self.s.get(self.pos + 1) == Some(&b'"') => {
                let st = self.pos + 2;
                let mut i = st;
                while self.s[i] != b'"' {
                    i += 1
                }
                self.pos = i + 1;
                Tok::Str(unq(&self.s[st..i]))
            }
            b'.' if self.s[self.pos..].starts_with(b"...") => {
                self.pos += 3;
                Tok::Dots
            }
            _ if c.is_ascii_digit() || (c == b'-' && self.s[self.pos + 1].is_ascii_digit()) => {
                let st = self.pos;
                self.pos += 1;
                while self.pos < self.end {
                    let d = self.s[self.pos];
                    if d.is_ascii_alphanumeric()
                        || d == b'.'
                        || (d == b'+' || d == b'-') && self.s[self.pos - 1] == b'e'
                    {
                        self.pos += 1
                    } else {
                        break;
                    }
                }
                Tok::Num(String::from_utf8_lossy(&self.s[st..self.pos]).to_string())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => Tok::Word(self.ident()),
            _ => {
                self.pos += 1;
                Tok::P(c)
            }
        }
    }
    pub fn next(&mut self) -> Tok {
        if let Some((t, p)) = self.peeked.take() {
            self.pos = p;
            return t;
        }
        self.raw()
    }
    pub fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            let save = self.pos;
            let t = self.raw();
            let after = self.pos;
            self.pos = save;
            self.peeked = Some((t, after));
        }
        &self.peeked.as_ref().unwrap().0
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if *self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            let ctx = String::from_utf8_lossy(
                &self.s[self.pos.saturating_sub(120)..(self.pos + 60).min(self.end)],
            )
            .to_string();
            panic!("expected {:?} got {:?} near <<{}>>", c as char, t, ctx);
        }
    }
    pub fn word(&mut self, w: &str) -> bool {
        if matches!(self.peek(), Tok::Word(x) if x == w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // after '('
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
    pub fn skip_line(&mut self) {
        self.peeked = None;
        while self.pos < self.end && self.s[self.pos] != b'\n' {
            self.pos += 1
        }
    }
}

const VALUE_WORDS: &[&str] = &[
    "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint",
    "splat", "none", "add", "sub", "xor", "trunc", "bitcast", "blockaddress", "dso_local_equivalent",
    "no_cfi", "asm", "addrspacecast",
];

impl Module {
    pub fn parse(text: Vec<u8>) -> Module {
        let text = Rc::new(text);
        let mut m = Module {
            text: text.clone(),
            types: HashMap::new(),
            fns: vec![],
            fn_by_name: HashMap::new(),
            globals: vec![],
            glob_by_name: HashMap::new(),
            aliases: HashMap::new(),
        };
        let s: &[u8] = &text;
        let mut i = 0;
        let mut pending_types: Vec<(usize, usize)> = vec![];
        let mut pending_globals: Vec<(usize, usize)> = vec![];
        while i < s.len() {
            let e = s[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(s.len());
            let line = &s[i..e];
            if line.starts_with(b"define ") {
                let mut j = e;
                // find "\n}"
                loop {
                    let p = s[j..].iter().position(|c| *c == b'\n').unwrap() + j;
                    if s[p + 1] == b'}' {
                        j = p + 2;
                        break;
                    }
                    j = p + 1;
                }
                let name = fn_name(line);
                m.add_fn(name, Some((i, j)));
                i = j;
                continue;
            } else if line.starts_with(b"declare ") {
                let name = fn_name(line);
                m.add_fn(name, None);
            } else if line.starts_with(b"@") {
                pending_globals.push((i, e));
            } else if line.starts_with(b"%") {
                pending_types.push((i, e));
            }
            i = e + 1;
        }
        for n in crate::os::EXTRA {
            if !m.fn_by_name.contains_key(*n) {
                m.add_fn(n.to_string(), None);
            }
        }
        // named types (retry until dependencies are known)
        let mut left = pending_types;
        while !left.is_empty() {
            let n = left.len();
            let mut rest = vec![];
            for (a, b) in left {
                let mut lx = Lex::new(s, a, b);
                let Tok::Local(name) = lx.next() else { panic!() };
                lx.expect(b'=');
                assert!(lx.word("type"));
                if lx.word("opaque") {
                    m.types.insert(name, Ty::Other);
                    continue;
                }
                match m.try_ty(&mut lx) {
                    Some(t) => {
                        m.types.insert(name, t);
                    }
                    None => rest.push((a, b)),
                }
            }
            assert!(rest.len() < n, "recursive named types");
            left = rest;
        }
        for (a, b) in pending_globals {
            let mut lx = Lex::new(s, a, b);
            let Tok::Global(name) = lx.next() else { panic!() };
            lx.expect(b'=');
            let mut ro = false;
            let mut ext = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::Word(w) => match w.as_str() {
                        "global" => break,
                        "constant" => {
                            ro = true;
                            break;
                        }
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => ext = true,
                        _ => {}
                    },
                    Tok::P(b'(') => lx.skip_parens(),
                    t => panic!("global {:?} {:?}", name, t),
                }
            }
            let ty = m.ty(&mut lx);
            if alias {
                // "@a = ... alias TY, ptr @b"
                lx.expect(b',');
                m.ty(&mut lx);
                if let Tok::Global(t) = lx.next() {
                    m.aliases.insert(name, t);
                }
                continue;
            }
            let init = if ext { None } else { Some((lx.pos, b)) };
            let idx = m.globals.len() as u32;
            let size = ty.size();
            m.globals.push(Global { name: name.clone(), ty, ro, init, size });
            m.glob_by_name.insert(name, idx);
        }
        m
    }
    fn add_fn(&mut self, name: String, body: Option<(usize, usize)>) {
        let i = self.fns.len() as u32;
        self.fn_by_name.insert(name.clone(), i);
        self.fns.push(FnDecl { name, body });
    }
    pub fn addr_of(&self, name: &str) -> u64 {
        if let Some(i) = self.fn_by_name.get(name) {
            return fn_addr(*i);
        }
        if let Some(i) = self.glob_by_name.get(name) {
            return glob_addr(*i);
        }
        if let Some(a) = self.aliases.get(name) {
            return self.addr_of(a);
        }
        panic!("unknown symbol {}", name)
    }
    fn try_ty(&self, lx: &mut Lex) -> Option<Ty> {
        let t = lx.next();
        Some(match t {
            Tok::Word(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "x86_fp80" | "half" | "fp128" | "label" | "token" | "metadata" | "opaque" | "bfloat" => Ty::Other,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => panic!("type word {}", w),
            },
            Tok::Local(n) => return self.types.get(&n).cloned(),
            Tok::P(b'[') => {
                let Tok::Num(n) = lx.next() else { panic!() };
                assert!(lx.word("x"));
                let t = self.try_ty(lx)?;
                lx.expect(b']');
                Ty::Arr(n.parse().unwrap(), Rc::new(t))
            }
            Tok::P(b'{') => {
                let f = self.fields(lx)?;
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let f = self.fields(lx)?;
                    lx.expect(b'>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let Tok::Num(n) = lx.next() else { panic!() };
                    assert!(lx.word("x"));
                    let t = self.try_ty(lx)?;
                    lx.expect(b'>');
                    Ty::Vec(n.parse().unwrap(), Rc::new(t))
                }
            }
            t => panic!("type {:?}", t),
        })
    }
    fn fields(&self, lx: &mut Lex) -> Option<Vec<Ty>> {
        let mut f = vec![];
        if lx.eat(b'}') {
            return Some(f);
        }
        loop {
            f.push(self.try_ty(lx)?);
            if lx.eat(b'}') {
                return Some(f);
            }
            lx.expect(b',');
        }
    }
    pub fn ty(&self, lx: &mut Lex) -> Ty {
        self.try_ty(lx).expect("unknown named type")
    }

    /// parse a constant of a type
    pub fn konst(&self, lx: &mut Lex, ty: &Ty) -> K {
        let t = lx.next();
        match t {
            Tok::Num(n) => {
                match ty {
                    Ty::F32 | Ty::F64 => {
                        let d: f64 = if let Some(h) = n.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                        } else {
                            n.parse().unwrap()
                        };
                        return K::I(if *ty == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 });
                    }
                    _ => {}
                }
                let w = ty.bits();
                let v: i128 = match n.parse::<i128>() {
                    Ok(v) => v,
                    Err(_) => n.parse::<u128>().expect("int constant") as i128,
                };
                K::I(v as u128 & crate::expr::mask(w as u8))
            }
            Tok::Str(b) => K::A(b.iter().map(|c| K::I(*c as u128)).collect()),
            Tok::Global(g) => K::I(self.addr_of(&g) as u128),
            Tok::Word(w) => match w.as_str() {
                "true" => K::I(1),
                "false" => K::I(0),
                "null" | "none" => K::I(0),
                "undef" | "poison" | "zeroinitializer" => self.zero(ty),
                "splat" => {
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    lx.expect(b')');
                    let Ty::Vec(n, _) = ty else { panic!() };
                    K::A(vec![v; *n as usize])
                }
                "getelementptr" => {
                    // [inbounds] [nuw] [nusw] [inrange(..)] (TY, ptr X, idx..)
                    loop {
                        match lx.next() {
                            Tok::Word(w) if w == "inrange" => {
                                lx.expect(b'(');
                                lx.skip_parens();
                            }
                            Tok::Word(_) => {}
                            Tok::P(b'(') => break,
                            t => panic!("gep const {:?}", t),
                        }
                    }
                    let t = self.ty(lx);
                    lx.expect(b',');
                    let pt = self.ty(lx);
                    let K::I(base) = self.konst(lx, &pt) else { panic!() };
                    let mut off: i64 = 0;
                    let mut cur = t;
                    let mut first = true;
                    while lx.eat(b',') {
                        let it = self.ty(lx);
                        let K::I(v) = self.konst(lx, &it) else { panic!() };
                        let v = crate::expr::sext(v, it.bits() as u8) as i64;
                        if first {
                            off += v * cur.size() as i64;
                            first = false;
                        } else {
                            let (o, t) = cur.field(v as usize);
                            off += o as i64;
                            cur = t;
                        }
                    }
                    lx.expect(b')');
                    K::I((base as u64).wrapping_add(off as u64) as u128)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                    lx.expect(b'(');
                    let t = self.ty(lx);
                    let v = self.konst(lx, &t);
                    assert!(lx.word("to"));
                    let tt = self.ty(lx);
                    lx.expect(b')');
                    match v {
                        K::I(x) => K::I(x & crate::expr::mask(tt.bits() as u8)),
                        v => v,
                    }
                }
                "add" | "sub" | "xor" => {
                    while !lx.eat(b'(') {
                        lx.next();
                    }
                    let t = self.ty(lx);
                    let K::I(a) = self.konst(lx, &t) else { panic!() };
                    lx.expect(b',');
                    let t = self.ty(lx);
                    let K::I(b) = self.konst(lx, &t) else { panic!() };
                    lx.expect(b')');
                    let r = match w.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        _ => a ^ b,
                    };
                    K::I(r & crate::expr::mask(t.bits() as u8))
                }
                w => panic!("constant word {}", w),
            },
            Tok::P(b'[') => K::A(self.klist(lx, b']')),
            Tok::P(b'{') => K::A(self.klist(lx, b'}')),
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.klist(lx, b'}');
                    lx.expect(b'>');
                    K::A(v)
                } else {
                    K::A(self.klist(lx, b'>'))
                }
            }
            Tok::P(c @ (b'+' | b'-')) => {
                let Tok::Word(w) = lx.next() else { panic!("signed constant") };
                let mut d = match w.as_str() {
                    "inf" => f64::INFINITY,
                    "qnan" => f64::NAN,
                    w => panic!("signed constant {}", w),
                };
                d = d.copysign(if c == b'-' { -1.0 } else { 1.0 });
                K::I(if *ty == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 })
            }
            t => panic!("constant {:?}", t),
        }
    }
    fn klist(&self, lx: &mut Lex, end: u8) -> Vec<K> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            v.push(self.konst(lx, &t));
            if lx.eat(end) {
                return v;
            }
            lx.expect(b',');
        }
    }
    fn zero(&self, ty: &Ty) -> K {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => K::A(vec![self.zero(t); *n as usize]),
            Ty::Struct(f, _) => K::A(f.iter().map(|t| self.zero(t)).collect()),
            _ => K::I(0),
        }
    }
    pub fn global_bytes(&self, i: u32) -> Vec<u8> {
        let g = &self.globals[i as usize];
        let mut out = vec![0u8; g.size as usize];
        if let Some((a, b)) = g.init {
            let text = self.text.clone();
            let mut lx = Lex::new(&text, a, b);
            if matches!(lx.peek(), Tok::Word(w) if w == "zeroinitializer" || w == "undef" || w == "poison") {
                return out;
            }
            let k = self.konst(&mut lx, &g.ty);
            self.emit(&k, &g.ty, &mut out, 0);
        }
        out
    }
    fn emit(&self, k: &K, ty: &Ty, out: &mut [u8], off: usize) {
        match k {
            K::I(v) => {
                let n = ty.bytes() as usize;
                out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
            K::A(v) => {
                if let (Ty::Arr(_, t), true) = (ty, v.len() > 64) {
                    if **t == Ty::Int(8) {
                        for (i, x) in v.iter().enumerate() {
                            if let K::I(b) = x {
                                out[off + i] = *b as u8
                            }
                        }
                        return;
                    }
                }
                for (i, x) in v.iter().enumerate() {
                    let (o, t) = ty.field(i);
                    self.emit(x, &t, out, off + o as usize);
                }
            }
        }
    }
    fn k2v(&self, k: &K) -> crate::exec::V {
        match k {
            K::I(v) => crate::exec::V::I(*v),
            K::A(a) => crate::exec::V::A(Rc::new(a.iter().map(|x| self.k2v(x)).collect())),
        }
    }

    /// skip parameter / return attributes, leaving the lexer at the value or type
    fn skip_attrs(&self, lx: &mut Lex) {
        loop {
            match lx.peek().clone() {
                Tok::Word(w) => {
                    if VALUE_WORDS.contains(&w.as_str()) || is_type_word(&w) {
                        return;
                    }
                    lx.next();
                    if w == "align" || w == "cc" || w == "alignstack" {
                        if let Tok::Num(_) = lx.peek() {
                            lx.next();
                            continue;
                        }
                    }
                    if *lx.peek() == Tok::P(b'(') {
                        lx.next();
                        lx.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat(b'=') {
                        lx.next();
                    }
                }
                Tok::AttrG => {
                    lx.next();
                }
                _ => return,
            }
        }
    }

    pub fn decode(&self, idx: u32) -> Func {
        let d = &self.fns[idx as usize];
        let (a, b) = d.body.expect("body");
        let text = self.text.clone();
        let mut fd = Dec {
            m: self,
            regs: HashMap::new(),
            labels: HashMap::new(),
            frame: 0,
            nunnamed: 0,
        };
        let mut lx = Lex::new(&text, a, b);
        // header
        lx.next(); // define
        loop {
            match lx.peek().clone() {
                Tok::Word(w) if is_type_word(&w) => break,
                Tok::Word(w) => {
                    lx.next();
                    if w == "align" || w == "cc" {
                        if let Tok::Num(_) = lx.peek() {
                            lx.next();
                        }
                    }
                    if *lx.peek() == Tok::P(b'(') {
                        lx.next();
                        lx.skip_parens();
                    }
                }
                _ => break,
            }
        }
        let _ret = self.ty(&mut lx);
        lx.next(); // @name
        lx.expect(b'(');
        let mut args = vec![];
        if !lx.eat(b')') {
            loop {
                if *lx.peek() == Tok::Dots {
                    lx.next();
                } else {
                    self.ty(&mut lx);
                    self.skip_attrs(&mut lx);
                    match lx.peek().clone() {
                        Tok::Local(n) => {
                            lx.next();
                            args.push(fd.reg(&n));
                            if n.bytes().all(|c| c.is_ascii_digit()) {
                                fd.nunnamed += 1
                            }
                        }
                        _ => {
                            let n = fd.nunnamed.to_string();
                            fd.nunnamed += 1;
                            args.push(fd.reg(&n));
                        }
                    }
                }
                if lx.eat(b')') {
                    break;
                }
                lx.expect(b',');
            }
        }
        lx.skip_line();
        // blocks: pass 1: split into (label, start, end)
        let mut pos = lx.pos + 1;
        let mut blocks: Vec<(String, usize, usize)> = vec![];
        let mut cur: Option<(String, usize)> = None;
        let s: &[u8] = &text;
        while pos < b {
            let e = s[pos..b].iter().position(|c| *c == b'\n').map(|p| pos + p).unwrap_or(b);
            let line = &s[pos..e];
            if !line.is_empty() && line[0] != b' ' && line[0] != b'\t' && line[0] != b'}' && line[0] != b';' {
                let mut l2 = Lex::new(s, pos, e);
                let name = if line[0] == b'"' {
                    let Tok::Str(n) = l2.next() else { panic!() };
                    String::from_utf8_lossy(&n).to_string()
                } else {
                    l2.ident()
                };
                if let Some((n, st)) = cur.take() {
                    blocks.push((n, st, pos));
                }
                cur = Some((name, e + 1));
            } else if cur.is_none() && line.starts_with(b"  ") {
                cur = Some((fd.nunnamed.to_string(), pos));
            } else if line.starts_with(b"}") {
                if let Some((n, st)) = cur.take() {
                    blocks.push((n, st, pos));
                }
            }
            pos = e + 1;
        }
        if let Some((n, st)) = cur.take() {
            blocks.push((n, st, b - 1));
        }
        for (i, (n, _, _)) in blocks.iter().enumerate() {
            fd.labels.insert(n.clone(), i as u32);
        }
        // phis first
        let mut phis: Vec<Vec<(u32, Vec<(Opd, u32)>)>> = vec![vec![]; blocks.len()];
        let mut bodies: Vec<usize> = vec![];
        for (i, (_, st, en)) in blocks.iter().enumerate() {
            let mut p = *st;
            loop {
                let e = s[p..*en].iter().position(|c| *c == b'\n').map(|x| p + x).unwrap_or(*en);
                let line = &s[p..e];
                let is_phi = find(line, b" = phi ").is_some();
                if !is_phi {
                    break;
                }
                let mut lx = Lex::new(s, p, e);
                let Tok::Local(d) = lx.next() else { panic!() };
                let d = fd.reg(&d);
                lx.expect(b'=');
                lx.next();
                while let Tok::Word(w) = lx.peek().clone() {
                    if is_type_word(&w) {
                        break;
                    }
                    lx.next();
                }
                let ty = self.ty(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let v = fd.opd(&mut lx, &ty);
                    lx.expect(b',');
                    let Tok::Local(l) = lx.next() else { panic!() };
                    inc.push((v, *fd.labels.get(&l).expect("phi label")));
                    lx.expect(b']');
                    if !lx.eat(b',') {
                        break;
                    }
                    if *lx.peek() == Tok::Meta {
                        break;
                    }
                }
                phis[i].push((d, inc));
                p = e + 1;
                if p >= *en {
                    break;
                }
            }
            bodies.push(p);
        }
        let mut out = vec![];
        for (i, (_, _, en)) in blocks.iter().enumerate() {
            let mut v = vec![];
            let mut lx = Lex::new(s, bodies[i], *en);
            loop {
                if *lx.peek() == Tok::Eof {
                    break;
                }
                if let Some(ins) = fd.ins(&mut lx, i as u32, &phis) {
                    v.push(ins);
                }
                lx.skip_line();
            }
            out.push(v);
        }
        Func {
            idx,
            name: d.name.clone(),
            nregs: fd.regs.len() as u32,
            args,
            blocks: out,
            frame: fd.frame,
        }
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn is_type_word(w: &str) -> bool {
    matches!(
        w,
        "void" | "ptr" | "float" | "double" | "label" | "token" | "metadata" | "x86_fp80" | "half" | "fp128"
    ) || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

fn fn_name(line: &[u8]) -> String {
    let p = line.iter().position(|c| *c == b'@').unwrap();
    let mut lx = Lex::new(line, p, line.len());
    match lx.next() {
        Tok::Global(n) => n,
        _ => panic!(),
    }
}

struct Dec<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    frame: u64,
    nunnamed: u32,
}

impl<'a> Dec<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, lx: &mut Lex, ty: &Ty) -> Opd {
        if let Tok::Local(n) = lx.peek().clone() {
            lx.next();
            return Opd::R(self.reg(&n));
        }
        if *ty == Ty::Other {
            // metadata operands and the like
            lx.next();
            return Opd::C(crate::exec::V::I(0));
        }
        let k = self.m.konst(lx, ty);
        Opd::C(self.m.k2v(&k))
    }
    fn tyopd(&mut self, lx: &mut Lex) -> (Ty, Opd) {
        let t = self.m.ty(lx);
        let o = self.opd(lx, &t);
        (t, o)
    }
    fn edge(&mut self, lx: &mut Lex, from: u32, phis: &[Vec<(u32, Vec<(Opd, u32)>)>]) -> Edge {
        assert!(lx.word("label"), "label expected");
        let Tok::Local(l) = lx.next() else { panic!() };
        let to = *self.labels.get(&l).unwrap_or_else(|| panic!("label {}", l));
        let mut copies = vec![];
        for (d, inc) in &phis[to as usize] {
            let (v, _) = inc.iter().find(|(_, b)| *b == from).expect("phi edge");
            copies.push((*d, v.clone()));
        }
        Edge { to, copies }
    }
    fn ins(&mut self, lx: &mut Lex, blk: u32, phis: &[Vec<(u32, Vec<(Opd, u32)>)>]) -> Option<Ins> {
        use crate::expr::Op;
        let mut d = None;
        if let Tok::Local(n) = lx.peek().clone() {
            lx.next();
            lx.expect(b'=');
            d = Some(self.reg(&n));
        }
        let Tok::Word(mut w) = lx.next() else { return None };
        if w == "tail" || w == "musttail" || w == "notail" {
            let Tok::Word(x) = lx.next() else { panic!() };
            w = x;
        }
        let flags = |lx: &mut Lex| loop {
            match lx.peek() {
                Tok::Word(w)
                    if matches!(
                        w.as_str(),
                        "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast"
                            | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
                    ) =>
                {
                    lx.next();
                }
                _ => break,
            }
        };
        let binop = |w: &str| {
            Some(match w {
                "add" => Op::Add,
                "sub" => Op::Sub,
                "mul" => Op::Mul,
                "udiv" => Op::UDiv,
                "sdiv" => Op::SDiv,
                "urem" => Op::URem,
                "srem" => Op::SRem,
                "and" => Op::And,
                "or" => Op::Or,
                "xor" => Op::Xor,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                _ => return None,
            })
        };
        if let Some(op) = binop(&w) {
            flags(lx);
            let (t, a) = self.tyopd(lx);
            lx.expect(b',');
            let b = self.opd(lx, &t);
            if t.scalar_w() > 128 {
                return Some(Ins::Bad(format!("{} on i{}", w, t.scalar_w())));
            }
            return Some(Ins::Bin { op, w: t.scalar_w() as u8, lanes: t.lanes(), d: d.unwrap(), a, b });
        }
        Some(match w.as_str() {
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(lx);
                let (t, a) = self.tyopd(lx);
                lx.expect(b',');
                let b = self.opd(lx, &t);
                Ins::FBin { op: w.as_bytes()[1], ty: t, d: d.unwrap(), a, b }
            }
            "fneg" => {
                flags(lx);
                let (t, a) = self.tyopd(lx);
                Ins::FNeg { ty: t, d: d.unwrap(), a }
            }
            "fcmp" => {
                flags(lx);
                let Tok::Word(p) = lx.next() else { panic!() };
                let (t, a) = self.tyopd(lx);
                lx.expect(b',');
                let b = self.opd(lx, &t);
                Ins::FCmp { pred: p, ty: t, d: d.unwrap(), a, b }
            }
            "icmp" => {
                flags(lx);
                let Tok::Word(p) = lx.next() else { panic!() };
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    p => panic!("icmp {}", p),
                };
                let (t, a) = self.tyopd(lx);
                lx.expect(b',');
                let b = self.opd(lx, &t);
                if t.scalar_w() > 128 {
                    return Some(Ins::Bad(format!("icmp on i{}", t.scalar_w())));
                }
                Ins::Icmp { p, w: t.scalar_w() as u8, lanes: t.lanes(), d: d.unwrap(), a, b }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "uitofp" | "sitofp"
            | "fptoui" | "fptosi" | "fpext" | "fptrunc" => {
                flags(lx);
                let (from, a) = self.tyopd(lx);
                assert!(lx.word("to"));
                let to = self.m.ty(lx);
                let k = match w.as_str() {
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "trunc" => CastK::Trunc,
                    "bitcast" => CastK::Bitcast,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    _ => {
                        let (f, t) = (from.scalar_w(), to.scalar_w());
                        if f == t {
                            CastK::Same
                        } else if f < t {
                            CastK::Zext
                        } else {
                            CastK::Trunc
                        }
                    }
                };
                Ins::Cast { k, from, to, d: d.unwrap(), a }
            }
            "freeze" => {
                let (_, a) = self.tyopd(lx);
                Ins::Copy { d: d.unwrap(), a }
            }
            "select" => {
                flags(lx);
                let (ct, c) = self.tyopd(lx);
                lx.expect(b',');
                let (ty, a) = self.tyopd(lx);
                lx.expect(b',');
                let (_, b) = self.tyopd(lx);
                Ins::Select { d: d.unwrap(), c, a, b, ty, vec: ct.lanes() > 0 }
            }
            "getelementptr" => {
                flags(lx);
                let t = self.m.ty(lx);
                lx.expect(b',');
                let (_, base) = self.tyopd(lx);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while lx.eat(b',') {
                    if *lx.peek() == Tok::Meta {
                        break;
                    }
                    let (it, o) = self.tyopd(lx);
                    if first {
                        let sz = cur.size() as i64;
                        match &o {
                            Opd::C(crate::exec::V::I(v)) => {
                                off += crate::expr::sext(*v, it.bits() as u8) as i64 * sz
                            }
                            _ => idx.push((o, it.bits() as u8, sz)),
                        }
                        first = false;
                    } else {
                        match (&o, &cur) {
                            (Opd::C(crate::exec::V::I(v)), Ty::Struct(..)) => {
                                let (x, t) = cur.field(*v as usize);
                                off += x as i64;
                                cur = t;
                            }
                            (Opd::C(crate::exec::V::I(v)), _) => {
                                let (_, t) = cur.field(0);
                                off += crate::expr::sext(*v, it.bits() as u8) as i64 * t.size() as i64;
                                cur = t;
                            }
                            _ => {
                                let (_, t) = cur.field(0);
                                idx.push((o, it.bits() as u8, t.size() as i64));
                                cur = t;
                            }
                        }
                    }
                }
                Ins::Gep { d: d.unwrap(), base, off, idx }
            }
            "load" => {
                while lx.word("atomic") || lx.word("volatile") {}
                let ty = self.m.ty(lx);
                lx.expect(b',');
                let (_, p) = self.tyopd(lx);
                Ins::Load { d: d.unwrap(), ty, p }
            }
            "store" => {
                while lx.word("atomic") || lx.word("volatile") {}
                let (ty, v) = self.tyopd(lx);
                lx.expect(b',');
                let (_, p) = self.tyopd(lx);
                Ins::Store { ty, v, p }
            }
            "alloca" => {
                lx.word("inalloca");
                let ty = self.m.ty(lx);
                let mut n = 1u64;
                let mut align = ty.align();
                while lx.eat(b',') {
                    if lx.word("align") {
                        let Tok::Num(a) = lx.next() else { panic!() };
                        align = a.parse().unwrap();
                    } else if *lx.peek() == Tok::Meta {
                        break;
                    } else {
                        let (_, o) = self.tyopd(lx);
                        match o {
                            Opd::C(crate::exec::V::I(v)) => n = v as u64,
                            _ => return Some(Ins::DynAlloca),
                        }
                    }
                }
                self.frame = (self.frame + align - 1) / align * align;
                let off = self.frame;
                // keep a red zone between locals so that overruns are seen at the frame's end
                self.frame += (ty.size() * n).max(1);
                Ins::Alloca { d: d.unwrap(), off }
            }
            "call" | "invoke" => {
                flags(lx);
                self.m.skip_attrs(lx);
                let ret = self.m.ty(lx);
                if lx.eat(b'(') {
                    lx.skip_parens();
                }
                let f = match lx.next() {
                    Tok::Global(g) => {
                        let mut g = g;
                        while let Some(a) = self.m.aliases.get(&g) {
                            g = a.clone()
                        }
                        Callee::Fn(*self.m.fn_by_name.get(&g).unwrap_or_else(|| panic!("callee {}", g)))
                    }
                    Tok::Local(n) => Callee::Ind(Opd::R(self.reg(&n))),
                    Tok::Word(w) if w == "asm" => {
                        while let Tok::Word(_) = lx.peek() {
                            lx.next();
                        }
                        let Tok::Str(s) = lx.next() else { panic!() };
                        lx.expect(b',');
                        lx.next();
                        Callee::Asm(String::from_utf8_lossy(&s).to_string())
                    }
                    Tok::Word(w) if w == "inttoptr" || w == "null" || w == "poison" || w == "undef" => {
                        return Some(Ins::Bad(format!("call of {}", w)))
                    }
                    t => panic!("callee {:?}", t),
                };
                lx.expect(b'(');
                let mut args = vec![];
                let mut tys = vec![];
                if !lx.eat(b')') {
                    loop {
                        let t = self.m.ty(lx);
                        if t == Ty::Other {
                            // metadata argument: skip to , or )
                            loop {
                                match lx.peek() {
                                    Tok::P(b',') | Tok::P(b')') => break,
                                    _ => {
                                        lx.next();
                                    }
                                }
                            }
                        } else {
                            self.m.skip_attrs(lx);
                            args.push(self.opd(lx, &t));
                            tys.push(t);
                        }
                        if lx.eat(b')') {
                            break;
                        }
                        lx.expect(b',');
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    loop {
                        if lx.word("to") {
                            break;
                        }
                        if lx.next() == Tok::Eof {
                            panic!("invoke without to")
                        }
                    }
                    normal = Some(self.edge(lx, blk, phis));
                } else if let Callee::Fn(i) = &f {
                    let n = &self.m.fns[*i as usize].name;
                    if n.starts_with("llvm.lifetime")
                        || n.starts_with("llvm.experimental.noalias")
                        || n.starts_with("llvm.dbg")
                    {
                        return None;
                    }
                }
                Ins::Call { d, f, args, ret, normal, argtys: Rc::new(tys) }
            }
            "br" => {
                if matches!(lx.peek(), Tok::Word(w) if w == "label") {
                    Ins::Br { e: self.edge(lx, blk, phis) }
                } else {
                    let (_, c) = self.tyopd(lx);
                    lx.expect(b',');
                    let t = self.edge(lx, blk, phis);
                    lx.expect(b',');
                    let f = self.edge(lx, blk, phis);
                    Ins::CondBr { c, t, f }
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(lx);
                lx.expect(b',');
                let def = self.edge(lx, blk, phis);
                lx.expect(b'[');
                let mut cases = vec![];
                let mut map = FxMap::default();
                while !lx.eat(b']') {
                    let ct = self.m.ty(lx);
                    let K::I(k) = self.m.konst(lx, &ct) else { panic!() };
                    lx.expect(b',');
                    let e = self.edge(lx, blk, phis);
                    map.insert(k, cases.len() as u32);
                    cases.push((k, e));
                }
                Ins::Switch { v, w: t.bits() as u8, cases, def, map }
            }
            "ret" => {
                let t = self.m.ty(lx);
                if t == Ty::Void {
                    Ins::Ret { v: None }
                } else {
                    Ins::Ret { v: Some(self.opd(lx, &t)) }
                }
            }
            "unreachable" => Ins::Unreachable,
            "landingpad" | "resume" | "cleanup" | "catch" | "filter" | "fence" | "indirectbr" => {
                if w == "fence" || w == "cleanup" || w == "catch" || w == "filter" {
                    return None;
                }
                Ins::Bad(w)
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(lx);
                let mut idx = vec![];
                while lx.eat(b',') {
                    if let Tok::Num(n) = lx.next() {
                        idx.push(n.parse().unwrap())
                    } else {
                        break;
                    }
                }
                Ins::ExtractValue { d: d.unwrap(), a, idx }
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(lx);
                lx.expect(b',');
                let (_, v) = self.tyopd(lx);
                let mut idx = vec![];
                while lx.eat(b',') {
                    if let Tok::Num(n) = lx.next() {
                        idx.push(n.parse().unwrap())
                    } else {
                        break;
                    }
                }
                Ins::InsertValue { d: d.unwrap(), a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tyopd(lx);
                lx.expect(b',');
                let (_, i) = self.tyopd(lx);
                Ins::ExtractElement { d: d.unwrap(), a, i }
            }
            "insertelement" => {
                let (_, a) = self.tyopd(lx);
                lx.expect(b',');
                let (_, v) = self.tyopd(lx);
                lx.expect(b',');
                let (_, i) = self.tyopd(lx);
                Ins::InsertElement { d: d.unwrap(), a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.tyopd(lx);
                lx.expect(b',');
                let (_, b) = self.tyopd(lx);
                lx.expect(b',');
                let (t, m) = self.tyopd(lx);
                let Opd::C(crate::exec::V::A(v)) = m else { panic!("shuffle mask {:?}", t) };
                let mask = v
                    .iter()
                    .map(|x| match x {
                        crate::exec::V::I(k) => *k as i64,
                        _ => 0,
                    })
                    .collect();
                Ins::Shuffle { d: d.unwrap(), a, b, mask }
            }
            "atomicrmw" => {
                lx.word("volatile");
                let Tok::Word(op) = lx.next() else { panic!() };
                let (_, p) = self.tyopd(lx);
                lx.expect(b',');
                let (t, v) = self.tyopd(lx);
                Ins::Rmw { d: d.unwrap(), op, w: t.bits() as u8, p, v }
            }
            "cmpxchg" => {
                lx.word("weak");
                lx.word("volatile");
                let (_, p) = self.tyopd(lx);
                lx.expect(b',');
                let (t, c) = self.tyopd(lx);
                lx.expect(b',');
                let (_, n) = self.tyopd(lx);
                Ins::CmpXchg { d: d.unwrap(), w: t.bits() as u8, p, c, n }
            }
            w => Ins::Bad(w.to_string()),
        })
    }
}
