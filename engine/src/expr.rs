//! Hash-consed bit-vector expressions over symbolic input bytes, with a
//! simplifier and an evaluator.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Concat,  // a = high, b = low
    Extract, // k = low bit; width = w
    SExt,
    Ite,
    Tbl, // k = table id, a = index
}

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub const MAXVARS: usize = 128;
pub type Mask = u128;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Set256(pub [u64; 4]);
impl Set256 {
    pub const FULL: Set256 = Set256([!0; 4]);
    pub fn and(&self, o: &Set256) -> Set256 {
        Set256([
            self.0[0] & o.0[0],
            self.0[1] & o.0[1],
            self.0[2] & o.0[2],
            self.0[3] & o.0[3],
        ])
    }
    pub fn not(&self) -> Set256 {
        Set256([!self.0[0], !self.0[1], !self.0[2], !self.0[3]])
    }
    pub fn is_empty(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn has(&self, v: u8) -> bool {
        self.0[(v >> 6) as usize] >> (v & 63) & 1 == 1
    }
    pub fn set(&mut self, v: u8) {
        self.0[(v >> 6) as usize] |= 1 << (v & 63)
    }
    pub fn first(&self) -> Option<u8> {
        for i in 0..4 {
            if self.0[i] != 0 {
                return Some((i * 64) as u8 + self.0[i].trailing_zeros() as u8);
            }
        }
        None
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    pub vars: Vec<Mask>,
    map: FxMap<Node, E>,
    pub tables: Vec<Vec<u128>>,
    tmap: HashMap<(Vec<u128>, u8), usize>,
    truth: FxMap<E, Set256>,
    memo: Vec<u128>,
    memo_gen: Vec<u32>,
    gen: u32,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn bin_eval(op: Op, w: u8, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Op::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Op::SDiv => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_div(sext(b, w)) as u128) & m
        }
        Op::SRem => {
            if b == 0 {
                return None;
            }
            (sext(a, w).wrapping_rem(sext(b, w)) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let sh = if b >= w as u128 { w as u128 - 1 } else { b };
            ((sext(a, w) >> sh) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    })
}

impl Pool {
    pub fn new() -> Pool {
        Pool {
            nodes: vec![Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 }],
            vars: vec![0],
            map: FxMap::default(),
            tables: vec![],
            tmap: HashMap::new(),
            truth: FxMap::default(),
            memo: vec![],
            memo_gen: vec![],
            gen: 0,
        }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        let vm = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.k,
            _ => self.vars[n.a as usize] | self.vars[n.b as usize] | self.vars[n.c as usize],
        };
        self.nodes.push(n);
        self.vars.push(vm);
        self.map.insert(n, e);
        e
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn cst(&mut self, k: u128, w: u8) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: usize) -> E {
        assert!(i < MAXVARS, "too many symbolic bytes");
        self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.cst(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.cst(0, w - aw);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        if n.op == Op::Const {
            return self.cst(sext(n.k, n.w) as u128, w);
        }
        if n.op == Op::Concat && self.cval(n.a).is_some_and(|k| k >> (self.w(n.a) - 1) == 0) {
            return self.zext(a, w);
        }
        if n.op == Op::Ite && self.cval(n.b).is_some() && self.cval(n.c).is_some() {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    /// segments from high to low
    fn segs(&self, e: E, out: &mut Vec<E>) {
        let n = self.n(e);
        if n.op == Op::Concat {
            self.segs(n.a, out);
            self.segs(n.b, out);
        } else {
            out.push(e)
        }
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w as u32 + nb.w as u32;
        assert!(w <= 128, "concat too wide");
        let w = w as u8;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.cst(na.k << nb.w | nb.k, w);
        }
        // right-nested normal form
        if na.op == Op::Concat {
            let r = self.concat(na.b, b);
            return self.concat(na.a, r);
        }
        // fuse neighbouring extracts / constants with the head of b
        let (head, rest) = if nb.op == Op::Concat { (nb.a, Some(nb.b)) } else { (b, None) };
        let nh = self.n(head);
        let fused = if na.op == Op::Const && nh.op == Op::Const {
            Some(self.cst(na.k << nh.w | nh.k, na.w + nh.w))
        } else if na.op == Op::Extract
            && nh.op == Op::Extract
            && na.a == nh.a
            && na.k == nh.k + nh.w as u128
        {
            Some(self.extract(na.a, nh.k as u8, na.w + nh.w))
        } else {
            None
        };
        if let Some(f) = fused {
            return match rest {
                Some(r) => self.concat(f, r),
                None => f,
            };
        }
        self.mk(Node { op: Op::Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn extract(&mut self, e: E, lo: u8, w: u8) -> E {
        let n = self.n(e);
        debug_assert!(lo as u32 + w as u32 <= n.w as u32);
        if lo == 0 && w == n.w {
            return e;
        }
        match n.op {
            Op::Const => self.cst(n.k >> lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    self.extract(n.a, lo - lw, w)
                } else if lo as u32 + w as u32 <= lw as u32 {
                    self.extract(n.b, lo, w)
                } else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            Op::Extract => self.extract(n.a, lo + n.k as u8, w),
            Op::SExt => {
                let iw = self.w(n.a);
                if lo as u32 + w as u32 <= iw as u32 {
                    self.extract(n.a, lo, w)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                self.ite(n.a, x, y)
            }
            Op::Tbl => {
                let t: Vec<u128> =
                    self.tables[n.k as usize].iter().map(|v| (v >> lo) & mask(w)).collect();
                self.table(t, w, n.a)
            }
            _ => self.mk(Node { op: Op::Extract, w, a: e, b: 0, c: 0, k: lo as u128 }),
        }
    }
    pub fn table(&mut self, t: Vec<u128>, w: u8, idx: E) -> E {
        if let Some(i) = self.cval(idx) {
            let v = t.get(i as usize).copied().unwrap_or(0);
            return self.cst(v, w);
        }
        if t.iter().all(|x| *x == t[0]) {
            return self.cst(t[0], w);
        }
        let id = match self.tmap.get(&(t.clone(), w)) {
            Some(i) => *i,
            None => {
                let i = self.tables.len();
                self.tables.push(t.clone());
                self.tmap.insert((t, w), i);
                i
            }
        };
        self.mk(Node { op: Op::Tbl, w, a: idx, b: 0, c: 0, k: id as u128 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.cval(c) {
            return if k == 1 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.cval(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // common zero / concat prefix
        if na.op == Op::Concat && nb.op == Op::Concat && na.a == nb.a {
            let l = self.ite(c, na.b, nb.b);
            return self.concat(na.a, l);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    fn split_bitwise(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let mut sa = vec![];
        let mut sb = vec![];
        self.segs(a, &mut sa);
        self.segs(b, &mut sb);
        let hasconst = |p: &Pool, s: &[E]| s.len() > 1 && s.iter().any(|e| p.cval(*e).is_some());
        let bc = self.cval(b);
        if !(hasconst(self, &sa) || hasconst(self, &sb)) {
            // constant mask: split by runs
            let k = bc?;
            let w = self.w(a);
            if op == Op::Xor && sa.len() == 1 {
                return None;
            }
            let mut cuts = vec![0u8];
            for i in 1..w {
                if (k >> i) & 1 != (k >> (i - 1)) & 1 {
                    cuts.push(i)
                }
            }
            cuts.push(w);
            if cuts.len() == 2 || (cuts.len() > 20) {
                return None;
            }
            let mut r: Option<E> = None;
            for i in 0..cuts.len() - 1 {
                let (lo, l) = (cuts[i], cuts[i + 1] - cuts[i]);
                let x = self.extract(a, lo, l);
                let y = self.cst(k >> lo, l);
                let p = self.bin(op, x, y);
                r = Some(match r {
                    None => p,
                    Some(q) => self.concat(p, q),
                });
            }
            return r;
        }
        let w = self.w(a);
        let mut cuts: Vec<u8> = vec![0, w];
        for s in [&sa, &sb] {
            let mut p = w;
            for e in s.iter() {
                p -= self.w(*e);
                cuts.push(p);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut r: Option<E> = None;
        for i in 0..cuts.len() - 1 {
            let (lo, l) = (cuts[i], cuts[i + 1] - cuts[i]);
            let x = self.extract(a, lo, l);
            let y = self.extract(b, lo, l);
            let p = self.bin(op, x, y);
            r = Some(match r {
                None => p,
                Some(q) => self.concat(p, q),
            });
        }
        r
    }
    /// leading constant-zero bits
    fn lead0(&self, e: E) -> u8 {
        let n = self.n(e);
        match n.op {
            Op::Const => (n.k.leading_zeros() as u8) - (128 - n.w as u32) as u8,
            Op::Concat => {
                let l = self.lead0(n.a);
                if l == self.w(n.a) {
                    l + self.lead0(n.b)
                } else {
                    l
                }
            }
            Op::Ite => self.lead0(n.b).min(self.lead0(n.c)),
            Op::Tbl => {
                let m = self.tables[n.k as usize].iter().copied().max().unwrap_or(0);
                (m.leading_zeros() - (128 - n.w as u32)) as u8
            }
            Op::And => self.lead0(n.a).max(self.lead0(n.b)),
            Op::Or => self.lead0(n.a).min(self.lead0(n.b)),
            _ => 0,
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        debug_assert_eq!(w, nb.w, "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if na.op == Op::Const && nb.op == Op::Const {
            if let Some(v) = bin_eval(op, w, na.k, nb.k) {
                return self.cst(v, rw);
            }
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && (na.op == Op::Const || (nb.op != Op::Const && a > b)) {
            return self.bin(op, b, a);
        }
        let bc = self.cval(b);
        let m = mask(w);
        match op {
            Op::Add => {
                if bc == Some(0) {
                    return a;
                }
                if let Some(k) = bc {
                    if na.op == Op::Add {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if nb.op == Op::Add {
                    if let Some(_) = self.cval(nb.b) {
                        let s = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, s, nb.b);
                    }
                }
                if na.op == Op::Add {
                    if let Some(_) = self.cval(na.b) {
                        let s = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = bc {
                    let c = self.cst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
            }
            Op::Mul => {
                if bc == Some(0) {
                    return b;
                }
                if bc == Some(1) {
                    return a;
                }
                if let Some(k) = bc {
                    if k.is_power_of_two() {
                        let c = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, c);
                    }
                }
            }
            Op::UDiv => {
                if bc == Some(1) {
                    return a;
                }
                if let Some(k) = bc {
                    if k.is_power_of_two() {
                        let c = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, c);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = bc {
                    if k.is_power_of_two() {
                        let c = self.cst(k - 1, w);
                        return self.bin(Op::And, a, c);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if bc == Some(0) {
                    return b;
                }
                if bc == Some(m) {
                    return a;
                }
                if w == 1 {
                    // x & !x
                    if self.not(a) == b {
                        return self.cst(0, 1);
                    }
                } else if let Some(e) = self.split_bitwise(op, a, b) {
                    return e;
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if bc == Some(0) {
                    return a;
                }
                if bc == Some(m) {
                    return b;
                }
                if w == 1 {
                    if self.not(a) == b {
                        return self.cst(1, 1);
                    }
                } else if let Some(e) = self.split_bitwise(op, a, b) {
                    return e;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if bc == Some(0) {
                    return a;
                }
                if let Some(k) = bc {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.cval(na.b) {
                            let c = self.cst(k ^ k2, w);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                    if w == 1 && k == 1 {
                        // not of comparison
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            Op::Tbl => {
                                let t: Vec<u128> =
                                    self.tables[na.k as usize].iter().map(|v| v ^ 1).collect();
                                return self.table(t, 1, na.a);
                            }
                            _ => {}
                        }
                    }
                }
                if w > 1 {
                    if let Some(e) = self.split_bitwise(op, a, b) {
                        return e;
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let h = self.extract(a, 0, w - k as u8);
                    let z = self.cst(0, k as u8);
                    return self.concat(h, z);
                }
            }
            Op::LShr => {
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let h = self.extract(a, k as u8, w - k as u8);
                    return self.zext(h, w);
                }
            }
            Op::AShr => {
                if let Some(k) = bc {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1);
                    let h = self.extract(a, k as u8, w - k as u8);
                    return self.sext(h, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if w == 1 {
                    if bc == Some(1) {
                        return a;
                    }
                    if bc == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(k) = bc {
                    match na.op {
                        Op::Add => {
                            if let Some(k2) = self.cval(na.b) {
                                let c = self.cst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cval(na.b) {
                                let c = self.cst(k ^ k2, w);
                                return self.bin(Op::Eq, na.a, c);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub if k == 0 => return self.bin(Op::Eq, na.a, na.b),
                        Op::Or if k == 0 => {
                            let x = self.bin(Op::Eq, na.a, b);
                            let y = self.bin(Op::Eq, na.b, b);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (cb, cc) = (self.cval(na.b), self.cval(na.c));
                            if cb.is_some() || cc.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if sext(k & mask(iw), iw) as u128 & m != k {
                                return self.cst(0, 1);
                            }
                            let c = self.cst(k, iw);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let ch = self.cst(k >> lw, w - lw);
                            let cl = self.cst(k, lw);
                            let h = self.bin(Op::Eq, na.a, ch);
                            if self.cval(h) == Some(0) {
                                return h;
                            }
                            let l = self.bin(Op::Eq, na.b, cl);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Tbl => {
                            let t: Vec<u128> = self.tables[na.k as usize]
                                .iter()
                                .map(|v| (*v == k) as u128)
                                .collect();
                            return self.table(t, 1, na.a);
                        }
                        _ => {}
                    }
                } else if na.op == Op::Concat && nb.op == Op::Concat {
                    let (wa, wb) = (self.w(na.b), self.w(nb.b));
                    let lw = wa.min(wb);
                    let al = self.extract(a, 0, lw);
                    let ah = self.extract(a, lw, w - lw);
                    let bl = self.extract(b, 0, lw);
                    let bh = self.extract(b, lw, w - lw);
                    let h = self.bin(Op::Eq, ah, bh);
                    let l = self.bin(Op::Eq, al, bl);
                    return self.bin(Op::And, h, l);
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.cst((op == Op::Ule) as u128, 1);
                }
                if op == Op::Ult && bc == Some(0) {
                    return self.cst(0, 1);
                }
                if op == Op::Ult && bc == Some(1) {
                    let z = self.cst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if op == Op::Ule && bc == Some(m) {
                    return self.cst(1, 1);
                }
                if op == Op::Ule && bc == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                let ac = self.cval(a);
                if op == Op::Ule && ac == Some(0) {
                    return self.cst(1, 1);
                }
                if op == Op::Ult && ac == Some(m) {
                    return self.cst(0, 1);
                }
                let (la, lb) = (self.lead0(a), self.lead0(b));
                // a < 2^(w-la); if b const >= that: true
                if let Some(k) = bc {
                    if la > 0 && k >> (w - la) != 0 {
                        return self.cst(1, 1);
                    }
                }
                if let Some(k) = ac {
                    if lb > 0 && k >> (w - lb) != 0 {
                        return self.cst(0, 1);
                    }
                }
                let l = la.min(lb);
                if l > 0 && l < w {
                    let x = self.extract(a, 0, w - l);
                    let y = self.extract(b, 0, w - l);
                    return self.bin(op, x, y);
                }
                if l == w {
                    return self.cst((op == Op::Ule) as u128, 1);
                }
                if let (Some(_), Op::Ite) = (bc, na.op) {
                    if self.cval(na.b).is_some() || self.cval(na.c).is_some() {
                        let x = self.bin(op, na.b, b);
                        let y = self.bin(op, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let (Some(_), Op::Ite) = (ac, nb.op) {
                    if self.cval(nb.b).is_some() || self.cval(nb.c).is_some() {
                        let x = self.bin(op, a, nb.b);
                        let y = self.bin(op, a, nb.c);
                        return self.ite(nb.a, x, y);
                    }
                }
                if let (Some(k), Op::Tbl) = (bc, na.op) {
                    let t: Vec<u128> = self.tables[na.k as usize]
                        .iter()
                        .map(|v| (if op == Op::Ult { *v < k } else { *v <= k }) as u128)
                        .collect();
                    return self.table(t, 1, na.a);
                }
                // canonical: only Ult with constants
                if op == Op::Ule {
                    if let Some(k) = bc {
                        let c = self.cst(k + 1, w);
                        return self.bin(Op::Ult, a, c);
                    }
                    if let Some(k) = ac {
                        let c = self.cst(k - 1, w);
                        return self.bin(Op::Ult, c, b);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst((op == Op::Sle) as u128, 1);
                }
                if self.lead0(a) > 0 && self.lead0(b) > 0 {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if op == Op::Slt && bc == Some(0) && w > 1 {
                    return self.extract(a, w - 1, 1);
                }
                if op == Op::Slt && self.cval(a) == Some(m) && w > 1 {
                    let t = self.extract(b, w - 1, 1);
                    return self.not(t);
                }
                if op == Op::Sle && self.cval(a) == Some(0) && w > 1 {
                    let t = self.extract(b, w - 1, 1);
                    return self.not(t);
                }
                if op == Op::Sle && bc == Some(m) && w > 1 {
                    return self.extract(a, w - 1, 1);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    /// Evaluates under an assignment of the input bytes.
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            self.memo_gen.iter_mut().for_each(|x| *x = 0);
            self.gen = 1;
        }
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 4096, 0);
            self.memo_gen.resize(self.nodes.len() + 4096, 0);
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u8]) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if self.memo_gen[e as usize] == self.gen {
            return self.memo[e as usize];
        }
        let v = match n.op {
            Op::Concat => {
                let h = self.ev(n.a, model);
                let l = self.ev(n.b, model);
                h << self.w(n.b) | l
            }
            Op::Extract => (self.ev(n.a, model) >> n.k) & mask(n.w),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.ev(n.a, model), iw) as u128 & mask(n.w)
            }
            Op::Ite => {
                if self.ev(n.a, model) == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::Tbl => {
                let i = self.ev(n.a, model) as usize;
                self.tables[n.k as usize].get(i).copied().unwrap_or(0)
            }
            op => {
                let a = self.ev(n.a, model);
                // short circuits keep deep boolean chains cheap
                if n.w == 1 && op == Op::And && a == 0 {
                    0
                } else {
                    let b = self.ev(n.b, model);
                    let w = self.w(n.a);
                    match bin_eval(op, w, a, b) {
                        Some(v) => v,
                        // SMT-LIB semantics of division by zero
                        None => match op {
                            Op::UDiv => mask(w),
                            Op::URem | Op::SRem => a,
                            _ => {
                                if sext(a, w) < 0 {
                                    1
                                } else {
                                    mask(w)
                                }
                            }
                        },
                    }
                }
            }
        };
        self.memo[e as usize] = v;
        self.memo_gen[e as usize] = self.gen;
        v
    }
    /// For a 1-bit expression over a single input byte: the bytes that make it true.
    pub fn truth_set(&mut self, e: E, var: usize) -> Set256 {
        if let Some(s) = self.truth.get(&e) {
            return *s;
        }
        let mut m = vec![0u8; var + 1];
        let mut s = Set256([0; 4]);
        for v in 0..=255u8 {
            m[var] = v;
            if self.eval(e, &m) == 1 {
                s.set(v)
            }
        }
        self.truth.insert(e, s);
        s
    }
    pub fn show(&self, e: E) -> String {
        let mut s = String::new();
        self.show_in(e, &mut s, 0);
        s
    }
    fn show_in(&self, e: E, s: &mut String, d: usize) {
        let n = self.n(e);
        if s.len() > 4000 || d > 60 {
            s.push_str("..");
            return;
        }
        match n.op {
            Op::Const => s.push_str(&format!("{:#x}:{}", n.k, n.w)),
            Op::Var => s.push_str(&format!("b{}", n.k)),
            Op::Extract => {
                s.push_str(&format!("[{}+{}]", n.k, n.w));
                self.show_in(n.a, s, d + 1)
            }
            Op::Ite => {
                s.push_str("(ite ");
                self.show_in(n.a, s, d + 1);
                s.push(' ');
                self.show_in(n.b, s, d + 1);
                s.push(' ');
                self.show_in(n.c, s, d + 1);
                s.push(')')
            }
            Op::Tbl => {
                s.push_str(&format!("T{}[", n.k));
                self.show_in(n.a, s, d + 1);
                s.push(']')
            }
            Op::SExt => {
                s.push_str(&format!("(sext{} ", n.w));
                self.show_in(n.a, s, d + 1);
                s.push(')')
            }
            _ => {
                s.push_str(&format!("({:?} ", n.op));
                self.show_in(n.a, s, d + 1);
                s.push(' ');
                self.show_in(n.b, s, d + 1);
                s.push(')')
            }
        }
    }
}
