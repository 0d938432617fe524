//! Builtins: intrinsics, libc, the harness interface and the panic hooks.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    Memcpy,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    Ovf(u8, bool), // op, signed
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitRev,
    FshL,
    FshR,
    UCmp,
    SCmp,
    Abs,
    Nop,
    Expect,
    Fabs,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Strlen,
    Panic,
    Abort,
    RetArg0,
    Zero,
    SymBytes,
    SymPick,
    SymAssume,
    SymCheck,
    SymFail,
    SymCover,
    SymObserve,
    SymLog,
    FMath,
    HashOne,
    SipWrite,
    StackLimit,
    Os(u16),
}

type R<T> = Result<T, Stop>;

/// OS model state carried by each path.
#[derive(Clone, Default)]
pub struct Env {
    pub errno: u64,
    pub rnd: u64,
    pub os: crate::os::Os,
}

pub fn builtin(name: &str, has_body: bool) -> Option<B> {
    if let Some(r) = name.strip_prefix("llvm.") {
        let base: String = r.to_string();
        let st = |p: &str| base.starts_with(p);
        return Some(if st("memcpy.") || st("memmove.") || st("memcpy.inline") {
            B::Memcpy
        } else if st("memset.") {
            B::Memset
        } else if st("umax.") {
            B::UMax
        } else if st("umin.") {
            B::UMin
        } else if st("smax.") {
            B::SMax
        } else if st("smin.") {
            B::SMin
        } else if st("uadd.sat") {
            B::UAddSat
        } else if st("usub.sat") {
            B::USubSat
        } else if st("sadd.sat") {
            B::SAddSat
        } else if st("ssub.sat") {
            B::SSubSat
        } else if st("uadd.with") {
            B::Ovf(b'+', false)
        } else if st("usub.with") {
            B::Ovf(b'-', false)
        } else if st("umul.with") {
            B::Ovf(b'*', false)
        } else if st("sadd.with") {
            B::Ovf(b'+', true)
        } else if st("ssub.with") {
            B::Ovf(b'-', true)
        } else if st("smul.with") {
            B::Ovf(b'*', true)
        } else if st("ctlz.") {
            B::Ctlz
        } else if st("cttz.") {
            B::Cttz
        } else if st("ctpop.") {
            B::Ctpop
        } else if st("bswap.") {
            B::Bswap
        } else if st("bitreverse.") {
            B::BitRev
        } else if st("fshl.") {
            B::FshL
        } else if st("fshr.") {
            B::FshR
        } else if st("ucmp.") {
            B::UCmp
        } else if st("scmp.") {
            B::SCmp
        } else if st("abs.") {
            B::Abs
        } else if st("fabs.") {
            B::Fabs
        } else if ["fptoui.sat", "fptosi.sat", "floor.", "ceil.", "trunc.", "round.", "roundeven.", "rint.", "nearbyint.", "sqrt.", "copysign.", "minnum.", "maxnum.", "minimumnum.", "maximumnum."].iter().any(|p| st(p)) {
            B::FMath
        } else if st("vector.reduce.or") {
            B::ReduceOr
        } else if st("vector.reduce.and") {
            B::ReduceAnd
        } else if st("vector.reduce.add") {
            B::ReduceAdd
        } else if st("assume") || st("lifetime") || st("x86.sse2.pause") || st("prefetch") || st("experimental.noalias")
            || st("donothing") || st("dbg")
        {
            B::Nop
        } else if st("expect") {
            B::Expect
        } else if st("threadlocal.address") {
            B::RetArg0
        } else if st("trap") {
            B::Abort
        } else {
            return None;
        });
    }
    Some(match name {
        "malloc" => B::Malloc,
        "calloc" => B::Calloc,
        "realloc" => B::Realloc,
        "free" => B::Free,
        "posix_memalign" => B::Memalign,
        "bcmp" | "memcmp" => B::Bcmp,
        "strlen" => B::Strlen,
        "abort" => B::Abort,
        "sym_bytes" => B::SymBytes,
        "sym_pick" => B::SymPick,
        "sym_assume" => B::SymAssume,
        "sym_check" => B::SymCheck,
        "sym_fail" => B::SymFail,
        "sym_cover" => B::SymCover,
        "sym_observe" => B::SymObserve,
        "sym_log" => B::SymLog,
        _ => {
            if name.contains("4core9panicking9panic_fmt")
                || name.contains("4core9panicking19panic_cannot_unwind")
                || name.contains("4core9panicking18panic_nounwind_fmt")
                || name.contains("17rust_begin_unwind")
                || name == "rust_begin_unwind"
                || name.contains("5alloc5alloc18handle_alloc_error")
            {
                B::Panic
            } else if let (false, Some(k)) = (has_body, crate::os::index(name)) {
                B::Os(k)
            } else if name.contains("7stacker15remaining_stack") {
                B::StackLimit
            } else if name.contains("11BuildHasher8hash_one") && name.contains("11RandomState") {
                B::HashOne
            } else if name.starts_with("_RNv") && name.contains("4core4hash3sip") && name.contains("6Hasher5write") {
                B::SipWrite
            } else {
                return None;
            }
        }
    })
}

impl Eng {
    fn w_of(&self, argtys: &[Ty], i: usize) -> u8 {
        argtys[i].scalar_w() as u8
    }
    fn map2(&mut self, a: &V, b: &V, f: &mut dyn FnMut(&mut Eng, &V, &V) -> R<V>) -> R<V> {
        if let (V::A(x), V::A(y)) = (a, b) {
            let mut o = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                o.push(f(self, p, q)?)
            }
            return Ok(V::A(Rc::new(o)));
        }
        f(self, a, b)
    }
    fn minmax(&mut self, w: u8, a: &V, b: &V, p: Pred) -> R<V> {
        let c = self.icmp(p, w, a, b)?;
        self.select(&c, a, b, &Ty::Int(w as u32))
    }
    pub fn cstr(&mut self, st: &mut State, a: u64) -> R<Vec<V>> {
        let mut out = vec![];
        let mut p = a;
        loop {
            let b = self.load_int(st, p, 1)?;
            let z = self.icmp(Pred::Eq, 8, &b, &V::I(0))?;
            if self.decide(st, &z)? {
                return Ok(out);
            }
            out.push(b);
            p += 1;
        }
    }
    pub fn text(&mut self, st: &mut State, p: u64, n: usize) -> R<String> {
        let b = self.load_bytes(st, p, n)?;
        Ok(b.iter()
            .map(|v| match v {
                V::I(k) => *k as u8 as char,
                V::S(e) => self.pool.eval(*e, &st.model) as u8 as char,
                _ => '?',
            })
            .collect())
    }
    pub fn fresh(&mut self, st: &mut State) -> E {
        let i = st.dom.len();
        st.dom.push(Set256::FULL);
        st.model.push(0);
        self.pool.var(i)
    }

    pub fn run_builtin(
        &mut self,
        st: &mut State,
        b: B,
        fi: u32,
        a: Vec<V>,
        ret: &Ty,
        at: &[Ty],
    ) -> R<Option<V>> {
        let usz = |e: &mut Eng, st: &mut State, v: &V| -> R<u64> { Ok(e.conc(st, v)? as u64) };
        Ok(match b {
            B::Memcpy => {
                let n = usz(self, st, &a[2])?;
                if n > 0 {
                    let d = usz(self, st, &a[0])?;
                    let s = usz(self, st, &a[1])?;
                    self.memcpy(st, d, s, n as usize)?;
                }
                None
            }
            B::Memset => {
                let n = usz(self, st, &a[2])? as usize;
                if n > 0 {
                    let d = usz(self, st, &a[0])?;
                    let v = vec![a[1].clone(); n];
                    self.store_bytes(st, d, &v)?;
                }
                None
            }
            B::UMax | B::UMin | B::SMax | B::SMin => {
                let w = self.w_of(at, 0);
                let p = match b {
                    B::UMax => Pred::Ugt,
                    B::UMin => Pred::Ult,
                    B::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                Some(self.map2(&a[0], &a[1], &mut |e, x, y| e.minmax(w, x, y, p))?)
            }
            B::USubSat => {
                let w = self.w_of(at, 0);
                Some(self.map2(&a[0], &a[1], &mut |e, x, y| {
                    let c = e.icmp(Pred::Ult, w, x, y)?;
                    let d = e.bin(Op::Sub, w, x, y)?;
                    e.select(&c, &V::I(0), &d, &Ty::Int(w as u32))
                })?)
            }
            B::UAddSat => {
                let w = self.w_of(at, 0);
                Some(self.map2(&a[0], &a[1], &mut |e, x, y| {
                    let d = e.bin(Op::Add, w, x, y)?;
                    let c = e.icmp(Pred::Ult, w, &d, x)?;
                    e.select(&c, &V::I(mask(w)), &d, &Ty::Int(w as u32))
                })?)
            }
            B::SAddSat | B::SSubSat => {
                let w = self.w_of(at, 0);
                let (V::I(x), V::I(y)) = (&a[0], &a[1]) else { return err("symbolic signed saturation") };
                let (x, y) = (sext(*x, w), sext(*y, w));
                let r = if b == B::SAddSat { x + y } else { x - y };
                let hi = (mask(w) >> 1) as i128;
                Some(V::I(r.clamp(-hi - 1, hi) as u128 & mask(w)))
            }
            B::Ovf(op, signed) => {
                let w = self.w_of(at, 0);
                let (o, ext) = match op {
                    b'+' => (Op::Add, w + 1),
                    b'-' => (Op::Sub, w + 1),
                    _ => (Op::Mul, w * 2),
                };
                if ext > 128 {
                    return err("overflow op too wide");
                }
                let x = self.to_e(&a[0], w);
                let y = self.to_e(&a[1], w);
                let r = self.pool.bin(o, x, y);
                let (xx, yy) = if signed {
                    (self.pool.sext(x, ext), self.pool.sext(y, ext))
                } else {
                    (self.pool.zext(x, ext), self.pool.zext(y, ext))
                };
                let full = self.pool.bin(o, xx, yy);
                let back = if signed { self.pool.sext(r, ext) } else { self.pool.zext(r, ext) };
                let eq = self.pool.bin(Op::Eq, full, back);
                let of = self.pool.not(eq);
                let (rv, ov) = (self.from_e(r), self.from_e(of));
                Some(V::A(Rc::new(vec![rv, ov])))
            }
            B::Ctlz | B::Cttz | B::Ctpop => {
                let w = self.w_of(at, 0);
                let one = |e: &mut Eng, x: &V| -> R<V> {
                    Ok(match x {
                        V::I(k) => V::I(match b {
                            B::Ctlz => (k.leading_zeros() - (128 - w as u32)) as u128,
                            B::Cttz => {
                                if *k == 0 {
                                    w as u128
                                } else {
                                    k.trailing_zeros() as u128
                                }
                            }
                            _ => k.count_ones() as u128,
                        }),
                        V::S(x) => {
                            let mut acc = e.pool.cst(if b == B::Ctpop { 0 } else { w as u128 }, w);
                            for i in 0..w {
                                // Cttz: lowest bit wins, so it is applied last
                                let bit = match b {
                                    B::Cttz => w - 1 - i,
                                    _ => i,
                                };
                                let t = e.pool.extract(*x, bit, 1);
                                if b == B::Ctpop {
                                    let z = e.pool.zext(t, w);
                                    acc = e.pool.bin(Op::Add, acc, z);
                                } else {
                                    let v = if b == B::Cttz { bit } else { w - 1 - bit };
                                    let k = e.pool.cst(v as u128, w);
                                    acc = e.pool.ite(t, k, acc);
                                }
                            }
                            e.from_e(acc)
                        }
                        _ => return err("ctz of aggregate"),
                    })
                };
                match &a[0] {
                    V::A(x) => {
                        let mut o = vec![];
                        for v in x.iter() {
                            o.push(one(self, v)?)
                        }
                        Some(V::A(Rc::new(o)))
                    }
                    v => Some(one(self, v)?),
                }
            }
            B::Bswap => {
                let w = self.w_of(at, 0);
                match &a[0] {
                    V::I(k) => Some(V::I(k.swap_bytes() >> (128 - w as u32))),
                    V::S(e) => {
                        let mut acc = self.pool.extract(*e, 0, 8);
                        for i in 1..w / 8 {
                            let x = self.pool.extract(*e, i * 8, 8);
                            acc = self.pool.concat(acc, x);
                        }
                        Some(self.from_e(acc))
                    }
                    _ => return err("bswap vector"),
                }
            }
            B::BitRev => {
                let w = self.w_of(at, 0);
                match &a[0] {
                    V::I(k) => Some(V::I(k.reverse_bits() >> (128 - w as u32))),
                    V::S(e) => {
                        let mut acc = self.pool.extract(*e, 0, 1);
                        for i in 1..w {
                            let x = self.pool.extract(*e, i, 1);
                            acc = self.pool.concat(acc, x);
                        }
                        Some(self.from_e(acc))
                    }
                    _ => return err("bitreverse vector"),
                }
            }
            B::FshL | B::FshR => {
                let w = self.w_of(at, 0);
                let f = |e: &mut Eng, x: &V, y: &V, s: &V| -> R<V> {
                    let V::I(s) = s else { return err("symbolic funnel shift") };
                    let s = (*s % w as u128) as u8;
                    let s = if b == B::FshL { s } else { (w - s) % w };
                    if s == 0 {
                        return Ok(if b == B::FshL { x.clone() } else { y.clone() });
                    }
                    let l = e.bin(Op::Shl, w, x, &V::I(s as u128))?;
                    let r = e.bin(Op::LShr, w, y, &V::I((w - s) as u128))?;
                    e.bin(Op::Or, w, &l, &r)
                };
                match (&a[0], &a[1], &a[2]) {
                    (V::A(x), V::A(y), V::A(s)) => {
                        let mut o = vec![];
                        for i in 0..x.len() {
                            o.push(f(self, &x[i], &y[i], &s[i])?)
                        }
                        Some(V::A(Rc::new(o)))
                    }
                    (x, y, s) => {
                        let s = V::I(self.conc(st, s)?);
                        Some(f(self, x, y, &s)?)
                    }
                }
            }
            B::UCmp | B::SCmp => {
                let w = self.w_of(at, 0);
                let rw = ret.bits();
                let (lt, gt) = if b == B::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w, &a[0], &a[1])?;
                let g = self.icmp(gt, w, &a[0], &a[1])?;
                let t = Ty::Int(rw);
                let x = self.select(&g, &V::I(1), &V::I(0), &t)?;
                Some(self.select(&l, &V::I(mask(rw as u8)), &x, &t)?)
            }
            B::Abs => {
                let w = self.w_of(at, 0);
                let n = self.icmp(Pred::Slt, w, &a[0], &V::I(0))?;
                let neg = self.bin(Op::Sub, w, &V::I(0), &a[0])?;
                Some(self.select(&n, &neg, &a[0], &Ty::Int(w as u32))?)
            }
            B::Fabs => {
                let k = self.conc(st, &a[0])?;
                Some(V::I(k & (mask(at[0].bits() as u8) >> 1)))
            }
            B::FMath => {
                let name = self.m.fns[fi as usize].name.clone();
                let f = name.strip_prefix("llvm.").unwrap_or(&name);
                let mut x = vec![];
                for (v, t) in a.iter().zip(at) {
                    if matches!(t, Ty::F32 | Ty::F64) {
                        let k = self.conc(st, v)?;
                        x.push(if *t == Ty::F32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) });
                    }
                }
                if f.starts_with("fpto") {
                    let w = ret.bits();
                    let lim = mask(w as u8);
                    return Ok(Some(V::I(if f.starts_with("fptoui") {
                        (x[0] as u128).min(lim)
                    } else {
                        (x[0] as i128).clamp(-((lim >> 1) as i128) - 1, (lim >> 1) as i128) as u128 & lim
                    })));
                }
                let r = match f.split('.').next().unwrap() {
                    "floor" => x[0].floor(),
                    "ceil" => x[0].ceil(),
                    "trunc" => x[0].trunc(),
                    "round" => x[0].round(),
                    "rint" | "nearbyint" | "roundeven" => x[0].round_ties_even(),
                    "sqrt" => x[0].sqrt(),
                    "copysign" => x[0].copysign(x[1]),
                    "minnum" | "minimumnum" => x[0].min(x[1]),
                    "maxnum" | "maximumnum" => x[0].max(x[1]),
                    n => return err(format!("floating-point function {}", n)),
                };
                Some(V::I(if *ret == Ty::F32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }))
            }
            B::ReduceOr | B::ReduceAnd | B::ReduceAdd => {
                let w = self.w_of(at, 0);
                let V::A(x) = &a[0] else { return err("reduce") };
                let op = match b {
                    B::ReduceOr => Op::Or,
                    B::ReduceAnd => Op::And,
                    _ => Op::Add,
                };
                let mut acc = x[0].clone();
                for v in x.iter().skip(1) {
                    acc = self.bin(op, w, &acc, v)?
                }
                Some(acc)
            }
            B::Nop => None,
            B::Expect | B::RetArg0 => Some(a[0].clone()),
            B::Malloc => {
                let n = usz(self, st, &a[0])?;
                if n > 1 << 28 {
                    return err(format!("allocation of {} bytes", n));
                }
                Some(V::I(self.alloc(st, n) as u128))
            }
            B::Calloc => {
                let n = usz(self, st, &a[0])? * usz(self, st, &a[1])?;
                if n > 1 << 28 {
                    return err(format!("allocation of {} bytes", n));
                }
                Some(V::I(self.alloc(st, n) as u128))
            }
            B::Realloc => {
                let p = usz(self, st, &a[0])?;
                let n = usz(self, st, &a[1])?;
                let q = self.alloc(st, n);
                if p != 0 {
                    let old = self.obj(st, p)?.data.len() as u64;
                    self.memcpy(st, q, p, old.min(n) as usize)?;
                    self.free(st, p)?;
                }
                Some(V::I(q as u128))
            }
            B::Free => {
                let p = usz(self, st, &a[0])?;
                self.free(st, p)?;
                None
            }
            B::Memalign => {
                let p = usz(self, st, &a[0])?;
                let n = usz(self, st, &a[2])?;
                let q = self.alloc(st, n);
                self.store_int(st, p, 8, &V::I(q as u128), 64)?;
                Some(V::I(0))
            }
            B::Bcmp => {
                let n = usz(self, st, &a[2])? as usize;
                if n == 0 {
                    return Ok(Some(V::I(0)));
                }
                let p = usz(self, st, &a[0])?;
                let q = usz(self, st, &a[1])?;
                let x = self.load_bytes(st, p, n)?;
                let y = self.load_bytes(st, q, n)?;
                let name = self.m.fns[fi as usize].name.clone();
                if name == "bcmp" {
                    let mut acc = V::I(1);
                    for i in 0..n {
                        let e = self.icmp(Pred::Eq, 8, &x[i], &y[i])?;
                        if e == V::I(0) {
                            return Ok(Some(V::I(1)));
                        }
                        acc = self.bin(Op::And, 1, &acc, &e)?;
                    }
                    Some(self.select(&acc, &V::I(0), &V::I(1), &Ty::Int(32))?)
                } else {
                    // memcmp: sign of the first difference
                    let t = Ty::Int(32);
                    let mut acc = V::I(0);
                    for i in (0..n).rev() {
                        let e = self.icmp(Pred::Eq, 8, &x[i], &y[i])?;
                        let l = self.icmp(Pred::Ult, 8, &x[i], &y[i])?;
                        let d = self.select(&l, &V::I(0xffff_ffff), &V::I(1), &t)?;
                        acc = self.select(&e, &acc, &d, &t)?;
                    }
                    Some(acc)
                }
            }
            B::Strlen => {
                let p = usz(self, st, &a[0])?;
                let s = self.cstr(st, p)?;
                Some(V::I(s.len() as u128))
            }
            B::Panic => {
                let mut loc = String::new();
                for v in a.iter().rev() {
                    if let V::I(p) = v {
                        if let Some(l) = self.location(st, *p as u64) {
                            loc = l;
                            break;
                        }
                    }
                }
                let w = self.where_am_i(st, 4);
                return Err(Stop::Fail(format!("panic {} in {}", loc, w)));
            }
            B::Abort => {
                let w = self.where_am_i(st, 4);
                return Err(Stop::Fail(format!("abort in {}", w)));
            }
            B::Zero => Some(V::I(0)),
            // A randomly keyed hash may be any function of the key: here it is a constant, so
            // that symbolic keys are told apart by comparing them. All ones, so that tables do
            // not iterate in the order of insertion.
            B::HashOne => Some(V::I(u64::MAX as u128)),
            B::SipWrite => None,
            B::StackLimit => Some(V::A(Rc::new(vec![V::I(1), V::I(1 << 30)]))),
            B::SymBytes => {
                let p = usz(self, st, &a[0])?;
                let n = usz(self, st, &a[1])? as usize;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(V::S(self.fresh(st)))
                }
                self.store_bytes(st, p, &v)?;
                None
            }
            B::SymPick => {
                // a fresh byte below n, made concrete by forking one path per value
                let n = usz(self, st, &a[0])?;
                if n == 0 || n > 256 {
                    return err("sym_pick range");
                }
                let e = self.fresh(st);
                let i = st.dom.len() - 1;
                if n < 256 {
                    let k = self.pool.cst(n as u128, 8);
                    let c = self.pool.bin(Op::Ult, e, k);
                    self.add(st, c);
                }
                for v in 1..n {
                    let mut o = st.clone();
                    let k = self.pool.cst(v as u128, 8);
                    let c = self.pool.bin(Op::Eq, e, k);
                    o.model[i] = v as u8;
                    self.add(&mut o, c);
                    self.finish_call(&mut o, Some(V::I(v as u128)));
                    self.rep.forks += 1;
                    self.work.push(o);
                }
                let k = self.pool.cst(0, 8);
                let c = self.pool.bin(Op::Eq, e, k);
                self.add(st, c);
                Some(V::I(0))
            }
            B::SymAssume => {
                let c = self.trunc(&a[0], 1);
                match c {
                    V::I(1) => {}
                    V::I(_) => return Err(Stop::Infeasible),
                    V::S(e) => {
                        let Some(m) = self.feasible(st, e) else { return Err(Stop::Infeasible) };
                        st.model = m;
                        self.add(st, e);
                    }
                    _ => return err("assume"),
                }
                None
            }
            B::SymCheck => {
                let c = self.trunc(&a[0], 1);
                match c {
                    V::I(1) => self.rep.checks_const += 1,
                    V::I(_) => {
                        let m = self.msg(st, &a[1], &a[2])?;
                        return Err(Stop::Fail(m));
                    }
                    V::S(e) => {
                        self.rep.checks_solver += 1;
                        self.smt.st.verdict_queries += 1;
                        let ne = self.pool.not(e);
                        if let Some(m) = self.feasible_z3(st, ne) {
                            let mut o = st.clone();
                            o.model = m;
                            self.add(&mut o, ne);
                            let t = self.msg(st, &a[1], &a[2])?;
                            self.finish(o, Stop::Fail(t));
                            match self.feasible(st, e) {
                                None => return Err(Stop::Infeasible),
                                Some(m) => st.model = m,
                            }
                        }
                        self.add(st, e);
                    }
                    _ => return err("check"),
                }
                None
            }
            B::SymFail => {
                let m = self.msg(st, &a[0], &a[1])?;
                return Err(Stop::Fail(m));
            }
            B::SymCover => {
                let k = usz(self, st, &a[0])?;
                st.covers.insert(k as u32);
                None
            }
            B::SymObserve => {
                let p = usz(self, st, &a[0])?;
                let n = usz(self, st, &a[1])? as usize;
                let b = self.load_bytes(st, p, n)?;
                st.obs.push(Rc::new(b));
                None
            }
            B::SymLog => {
                let p = usz(self, st, &a[0])?;
                let n = usz(self, st, &a[1])? as usize;
                let t = self.text(st, p, n)?;
                eprintln!("LOG {}", t);
                None
            }
            B::Os(k) => return crate::os::call(self, st, k, fi, a, ret),
        })
    }
    fn msg(&mut self, st: &mut State, p: &V, n: &V) -> R<String> {
        let (V::I(p), V::I(n)) = (p, n) else { return Ok("?".into()) };
        self.text(st, *p as u64, *n as usize)
    }
    fn location(&mut self, st: &State, p: u64) -> Option<String> {
        let rd = |e: &mut Eng, a: u64, n: usize| match e.load_int(st, a, n) {
            Ok(V::I(k)) => Some(k as u64),
            _ => None,
        };
        if p < 1 << 32 || p >= FN_BASE {
            return None;
        }
        let f = rd(self, p, 8)?;
        let n = rd(self, p + 8, 8)?;
        let line = rd(self, p + 16, 4)?;
        if n == 0 || n > 300 || line > 100_000 {
            return None;
        }
        let b = self.load_bytes(st, f, n as usize).ok()?;
        let s: String = b
            .iter()
            .map(|v| match v {
                V::I(k) => *k as u8 as char,
                _ => '?',
            })
            .collect();
        if s.contains('/') || s.ends_with(".rs") || s.ends_with(".rs\0") {
            Some(format!("at {}:{}", s.trim_end_matches('\0'), line))
        } else {
            None
        }
    }
}
