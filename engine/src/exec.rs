//! The symbolic interpreter: states, memory, instructions, forking.
use crate::expr::*;
use crate::ir::*;
use crate::smt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(u128),
    S(E),
    A(Rc<Vec<V>>),
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>, // 0 = concrete
    pub ro: bool,
    pub freed: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false, freed: false }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
}

const CH: usize = 64;
pub const STACK_ID: u64 = 0x2000_0000;
pub const HEAP_ID: u64 = 0x4000_0000;

#[derive(Clone, Default)]
pub struct Heap {
    pub chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    pub n: usize,
}
impl Heap {
    fn push(&mut self, o: Obj) -> usize {
        let i = self.n;
        if i % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(Some(Rc::new(o)));
        self.n += 1;
        i
    }
    fn get(&self, i: usize) -> Option<&Rc<Obj>> {
        self.chunks.get(i / CH)?.get(i % CH)?.as_ref()
    }
    fn slot(&mut self, i: usize) -> Option<&mut Option<Rc<Obj>>> {
        Rc::make_mut(self.chunks.get_mut(i / CH)?).get_mut(i % CH)
    }
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub frames: Vec<Rc<Frame>>,
    pub stack: Vec<Rc<Obj>>,
    pub heap: Heap,
    pub globals: Rc<FxMap<u32, Rc<Obj>>>,
    pub pc: Vec<E>,
    pub multi: Vec<E>,
    pub entangled: Mask,
    pub dom: Vec<Set256>,
    pub model: Vec<u8>,
    pub known: FxMap<E, u128>,
    pub obs: Vec<Rc<Vec<V>>>,
    pub covers: BTreeSet<u32>,
    pub icount: u64,
    pub env: crate::env::Env,
    pub done: bool,
    pub forks: u32,
}

pub enum Stop {
    /// path finished normally
    Done,
    /// assumption false
    Infeasible,
    /// property violation with a message
    Fail(String),
    /// the engine cannot continue on this path
    Error(String),
}
type R<T> = Result<T, Stop>;
pub fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Error(s.into()))
}

pub struct PathRec {
    pub model: Vec<u8>,
    pub hash: u64,
    pub covers: Vec<u32>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub instrs: u64,
    pub forks: u64,
    pub max_path_instrs: u64,
    pub fails: Vec<(String, Vec<u8>)>,
    pub nfails: u64,
    pub errors: Vec<(String, Vec<u8>)>,
    pub nerrors: u64,
    pub recs: Vec<PathRec>,
    pub covers: BTreeMap<u32, u64>,
    pub checks_const: u64,
    pub checks_solver: u64,
}

pub const OUT_OF_TIME: &str = "out of time";

pub struct Eng {
    pub m: Module,
    pub funcs: Vec<Option<Rc<Func>>>,
    pub builtin: Vec<Option<crate::env::B>>,
    pub pool: Pool,
    pub smt: Smt,
    pub globj: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub rep: Report,
    pub max_instr: u64,
    pub deadline: Option<std::time::Instant>,
    pub expired: bool,
    pub max_depth: usize,
    pub cover_names: Vec<String>,
    pub msgs: Vec<String>,
    pub trace: bool,
    pub rec_cap: usize,
    pub no_concretize_cap: u32,
    pub prof: FxMap<u32, u64>,
    pub forksites: BTreeMap<String, u64>,
    pub profile: bool,
    pub entry_name: String,
}

fn fnv(h: &mut u64, b: u8) {
    *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
}

impl Eng {
    pub fn new(m: Module) -> Eng {
        let n = m.fns.len();
        let builtin = m.fns.iter().map(|f| crate::env::builtin(&f.name, f.body.is_some())).collect();
        let g = m.globals.len();
        Eng {
            m,
            funcs: vec![None; n],
            builtin,
            pool: Pool::new(),
            smt: Smt::new(),
            globj: vec![None; g],
            work: vec![],
            rep: Report::default(),
            max_instr: 50_000_000,
            deadline: None,
            expired: false,
            max_depth: 3000,
            cover_names: vec![],
            msgs: vec![],
            trace: false,
            rec_cap: 4000,
            no_concretize_cap: 300,
            prof: FxMap::default(),
            forksites: BTreeMap::new(),
            profile: false,
            entry_name: String::new(),
        }
    }
    pub fn func(&mut self, i: u32) -> R<Rc<Func>> {
        if let Some(f) = &self.funcs[i as usize] {
            return Ok(f.clone());
        }
        if self.m.fns[i as usize].body.is_none() {
            return err(format!("call of undefined function {}", self.m.fns[i as usize].name));
        }
        let f = Rc::new(self.m.decode(i));
        self.funcs[i as usize] = Some(f.clone());
        Ok(f)
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let i = *self.m.fn_by_name.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let f = match self.func(i) {
            Ok(f) => f,
            _ => panic!("entry"),
        };
        let regs = vec![V::I(0); f.nregs as usize];
        State {
            stack: vec![Rc::new(Obj::new(f.frame as usize))],
            top: Frame { f, blk: 0, ip: 0, regs },
            frames: vec![],
            heap: Heap::default(),
            globals: Rc::new(FxMap::default()),
            pc: vec![],
            multi: vec![],
            entangled: 0,
            dom: vec![],
            model: vec![],
            known: FxMap::default(),
            obs: vec![],
            covers: BTreeSet::new(),
            icount: 0,
            env: crate::env::Env::default(),
            done: false,
            forks: 0,
        }
    }

    // ---------------------------------------------------------------- solver glue
    pub fn add(&mut self, st: &mut State, c: E) {
        let n = self.pool.n(c);
        if n.op == Op::Const {
            debug_assert!(n.k == 1);
            return;
        }
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        // !(a | b)
        if n.op == Op::Xor && self.pool.cval(n.b) == Some(1) {
            let m = self.pool.n(n.a);
            if m.op == Op::Or {
                let x = self.pool.not(m.a);
                let y = self.pool.not(m.b);
                self.add(st, x);
                self.add(st, y);
                return;
            }
        }
        let vm = self.pool.vars[c as usize];
        if vm.count_ones() == 1 {
            let i = vm.trailing_zeros() as usize;
            let s = self.pool.truth_set(c, i);
            let nd = st.dom[i].and(&s);
            if nd != st.dom[i] {
                st.dom[i] = nd;
                st.pc.push(c);
            }
            return;
        }
        if !st.multi.contains(&c) {
            st.multi.push(c);
            st.pc.push(c);
            st.entangled |= vm;
        }
    }
    fn slice(&self, st: &State, c: E) -> (Vec<E>, Mask) {
        let mut vm = self.pool.vars[c as usize];
        let mut out = vec![c];
        loop {
            let mut grew = false;
            for e in &st.multi {
                let m = self.pool.vars[*e as usize];
                if m & vm != 0 && !out.contains(e) {
                    out.push(*e);
                    if m & !vm != 0 {
                        vm |= m;
                        grew = true;
                    }
                }
            }
            if !grew {
                break;
            }
        }
        for e in &st.pc {
            let m = self.pool.vars[*e as usize];
            if m.count_ones() == 1 && m & vm != 0 {
                out.push(*e)
            }
        }
        (out, vm)
    }
    /// A model of pc && c if there is one.
    pub fn feasible(&mut self, st: &State, c: E) -> Option<Vec<u8>> {
        if let Some(k) = self.pool.cval(c) {
            return if k == 1 { Some(st.model.clone()) } else { None };
        }
        if self.pool.eval(c, &st.model) == 1 {
            self.smt.st.model_decided += 1;
            return Some(st.model.clone());
        }
        let vm = self.pool.vars[c as usize];
        if self.smt.use_domain {
            if vm.count_ones() == 1 {
                let i = vm.trailing_zeros() as usize;
                let s = self.pool.truth_set(c, i).and(&st.dom[i]);
                if s.is_empty() {
                    self.smt.st.domain_decided += 1;
                    return None;
                }
                let mut m = st.model.clone();
                if st.entangled >> i & 1 == 0 {
                    self.smt.st.domain_decided += 1;
                    m[i] = s.first().unwrap();
                    return Some(m);
                }
                let mut tries = 0;
                for v in 0..=255u8 {
                    if s.has(v) {
                        m[i] = v;
                        let mut ok = true;
                        for e in &st.multi {
                            if self.pool.vars[*e as usize] >> i & 1 == 1 && self.pool.eval(*e, &m) != 1 {
                                ok = false;
                                break;
                            }
                        }
                        if ok {
                            self.smt.st.domain_decided += 1;
                            return Some(m);
                        }
                        tries += 1;
                        if tries > 12 {
                            break;
                        }
                    }
                }
            } else if self.pool.n(c).op == Op::Eq && vm.count_ones() == 2 {
                // two unconstrained-together bytes being equal: pick a common value
                let n = self.pool.n(c);
                let (na, nb) = (self.pool.n(n.a), self.pool.n(n.b));
                if na.op == Op::Var && nb.op == Op::Var && st.entangled & vm == 0 {
                    let (i, j) = (na.k as usize, nb.k as usize);
                    self.smt.st.domain_decided += 1;
                    let s = st.dom[i].and(&st.dom[j]);
                    return s.first().map(|v| {
                        let mut m = st.model.clone();
                        m[i] = v;
                        m[j] = v;
                        m
                    });
                }
            }
        }
        self.feasible_z3(st, c)
    }
    pub fn feasible_z3(&mut self, st: &State, c: E) -> Option<Vec<u8>> {
        let (cs, _) = self.slice(st, c);
        match self.smt.check(&self.pool, &cs) {
            Res::Unsat => None,
            Res::Sat(a) => {
                let mut m = st.model.clone();
                for (i, v) in a {
                    m[i as usize] = v
                }
                debug_assert!(cs.iter().all(|e| self.pool.eval(*e, &m) == 1));
                Some(m)
            }
        }
    }
    fn push_state(&mut self, st: State) {
        self.rep.forks += 1;
        if self.profile {
            let s = self.where_am_i(&st, 3);
            *self.forksites.entry(s).or_default() += 1;
        }
        self.work.push(st);
    }
    /// Ends the path when time is up.
    fn in_time(&mut self) -> R<()> {
        match self.deadline {
            Some(d) if std::time::Instant::now() > d => err(OUT_OF_TIME),
            _ => Ok(()),
        }
    }
    /// Decide a 1-bit value on this path, forking the other side (which will re-execute
    /// the current instruction).
    pub fn decide(&mut self, st: &mut State, v: &V) -> R<bool> {
        match v {
            V::I(k) => Ok(*k & 1 == 1),
            V::S(c) => {
                let c = *c;
                self.in_time()?;
                let b = self.pool.eval(c, &st.model) == 1;
                let nc = self.pool.not(c);
                let (yes, other) = if b { (c, nc) } else { (nc, c) };
                if let Some(m) = self.feasible(st, other) {
                    let mut o = st.clone();
                    o.forks += 1;
                    st.forks += 1;
                    o.model = m;
                    self.add(&mut o, other);
                    self.push_state(o);
                    self.add(st, yes);
                }
                Ok(b)
            }
            V::A(_) => err("decide on aggregate"),
        }
    }
    /// Make a value concrete on this path, forking one sibling for all other values.
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::I(k) => Ok(*k),
            V::S(e) => {
                let e = *e;
                if let Some(k) = st.known.get(&e) {
                    return Ok(*k);
                }
                self.in_time()?;
                let k = self.pool.eval(e, &st.model);
                let w = self.pool.w(e);
                let kc = self.pool.cst(k, w);
                let eq = self.pool.bin(Op::Eq, e, kc);
                let ne = self.pool.not(eq);
                if let Some(m) = self.feasible(st, ne) {
                    let mut o = st.clone();
                    o.forks += 1;
                    st.forks += 1;
                    o.model = m;
                    self.add(&mut o, ne);
                    self.push_state(o);
                    self.add(st, eq);
                }
                st.known.insert(e, k);
                Ok(k)
            }
            V::A(_) => err("concretize aggregate"),
        }
    }

    pub fn conc_all(&mut self, st: &mut State, v: &V) -> R<V> {
        match v {
            V::A(a) => {
                let mut o = vec![];
                for x in a.iter() {
                    o.push(self.conc_all(st, x)?)
                }
                Ok(V::A(Rc::new(o)))
            }
            v => Ok(V::I(self.conc(st, v)?)),
        }
    }

    // ---------------------------------------------------------------- memory
    fn base_global(&mut self, i: u32) -> Rc<Obj> {
        if let Some(o) = &self.globj[i as usize] {
            return o.clone();
        }
        let data = self.m.global_bytes(i);
        let o = Rc::new(Obj { data, sym: None, ro: self.m.globals[i as usize].ro, freed: false });
        self.globj[i as usize] = Some(o.clone());
        o
    }
    pub fn obj(&mut self, st: &State, addr: u64) -> R<Rc<Obj>> {
        let id = addr >> 32;
        let o = if id >= 0x7000_0000 {
            None
        } else if id >= HEAP_ID {
            st.heap.get((id - HEAP_ID) as usize).cloned()
        } else if id >= STACK_ID {
            st.stack.get((id - STACK_ID) as usize).cloned()
        } else if id >= 1 && (id as usize) <= self.m.globals.len() {
            let gi = (id - 1) as u32;
            match st.globals.get(&gi) {
                Some(o) => Some(o.clone()),
                None => Some(self.base_global(gi)),
            }
        } else {
            None
        };
        match o {
            Some(o) if !o.freed => Ok(o),
            Some(_) => err(format!("use after free at {:#x}", addr)),
            None => err(format!("wild pointer {:#x}", addr)),
        }
    }
    pub fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<&'a mut Obj> {
        let id = addr >> 32;
        if id >= HEAP_ID && id < 0x7000_0000 {
            match st.heap.slot((id - HEAP_ID) as usize) {
                Some(Some(o)) => {
                    if o.freed {
                        return err(format!("write after free at {:#x}", addr));
                    }
                    return Ok(Rc::make_mut(o));
                }
                _ => return err(format!("wild write {:#x}", addr)),
            }
        }
        if id >= STACK_ID && id < HEAP_ID {
            match st.stack.get_mut((id - STACK_ID) as usize) {
                Some(o) => return Ok(Rc::make_mut(o)),
                None => return err(format!("wild stack write {:#x}", addr)),
            }
        }
        if id >= 1 && (id as usize) <= self.m.globals.len() {
            let gi = (id - 1) as u32;
            if self.m.globals[gi as usize].ro {
                return err(format!("write to constant {}", self.m.globals[gi as usize].name));
            }
            if !st.globals.contains_key(&gi) {
                let o = self.base_global(gi);
                Rc::make_mut(&mut st.globals).insert(gi, o);
            }
            let g = Rc::make_mut(&mut st.globals);
            return Ok(Rc::make_mut(g.get_mut(&gi).unwrap()));
        }
        err(format!("wild write {:#x}", addr))
    }
    pub fn alloc(&mut self, st: &mut State, n: u64) -> u64 {
        let i = st.heap.push(Obj::new(n as usize));
        (HEAP_ID + i as u64) << 32
    }
    pub fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        if a & 0xffff_ffff != 0 {
            return err(format!("free of interior pointer {:#x}", a));
        }
        let o = self.obj_mut(st, a)?;
        o.freed = true;
        o.data = vec![];
        o.sym = None;
        Ok(())
    }
    fn byte_of(&mut self, st: &State, e: E) -> V {
        let n = self.pool.n(e);
        if n.op == Op::Var {
            let d = &st.dom[n.k as usize];
            if d.count() == 1 {
                return V::I(d.first().unwrap() as u128);
            }
        }
        V::S(e)
    }
    pub fn load_int(&mut self, st: &State, addr: u64, n: usize) -> R<V> {
        let o = self.obj(st, addr)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + n > o.data.len() {
            return err(format!("out-of-bounds read of {} bytes at {:#x} (object of {})", n, addr, o.data.len()));
        }
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|e| *e != 0) {
                let mut acc: Option<V> = None;
                for i in 0..n {
                    let b = if s[off + i] != 0 { self.byte_of(st, s[off + i]) } else { V::I(o.data[off + i] as u128) };
                    acc = Some(match acc {
                        None => b,
                        Some(lo) => self.cat(&b, 8, &lo, (i * 8) as u8),
                    });
                }
                return Ok(acc.unwrap());
            }
        }
        let mut b = [0u8; 16];
        if n > 16 {
            return err("wide integer load");
        }
        b[..n].copy_from_slice(&o.data[off..off + n]);
        Ok(V::I(u128::from_le_bytes(b)))
    }
    pub fn to_e(&mut self, v: &V, w: u8) -> E {
        match v {
            V::I(k) => self.pool.cst(*k, w),
            V::S(e) => *e,
            V::A(_) => panic!("aggregate as expression"),
        }
    }
    pub fn from_e(&self, e: E) -> V {
        match self.pool.cval(e) {
            Some(k) => V::I(k),
            None => V::S(e),
        }
    }
    pub fn cat(&mut self, hi: &V, hw: u8, lo: &V, lw: u8) -> V {
        if let (V::I(a), V::I(b)) = (hi, lo) {
            return V::I(a << lw | b);
        }
        let h = self.to_e(hi, hw);
        let l = self.to_e(lo, lw);
        let e = self.pool.concat(h, l);
        self.from_e(e)
    }
    pub fn store_int(&mut self, st: &mut State, addr: u64, n: usize, v: &V, w: u32) -> R<()> {
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            V::I(k) => {
                let o = self.obj_mut(st, addr)?;
                if off + n > o.data.len() {
                    return err(format!("out-of-bounds write of {} at {:#x} (object of {})", n, addr, o.data.len()));
                }
                o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    for x in &mut s[off..off + n] {
                        *x = 0
                    }
                }
                Ok(())
            }
            V::S(e) => {
                let full = self.pool.zext(*e, (n * 8) as u8);
                let _ = w;
                let mut bytes = Vec::with_capacity(n);
                for i in 0..n {
                    let b = self.pool.extract(full, (i * 8) as u8, 8);
                    bytes.push(self.from_e(b));
                }
                self.store_bytes(st, addr, &bytes)
            }
            V::A(_) => err("store of aggregate as int"),
        }
    }
    pub fn store_bytes(&mut self, st: &mut State, addr: u64, bytes: &[V]) -> R<()> {
        if bytes.is_empty() {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.obj_mut(st, addr)?;
        if off + bytes.len() > o.data.len() {
            return err(format!("out-of-bounds write of {} at {:#x}", bytes.len(), addr));
        }
        for (i, b) in bytes.iter().enumerate() {
            match b {
                V::I(k) => {
                    o.data[off + i] = *k as u8;
                    if let Some(s) = &mut o.sym {
                        s[off + i] = 0
                    }
                }
                V::S(e) => {
                    let n = o.data.len();
                    o.sym.get_or_insert_with(|| vec![0; n])[off + i] = *e;
                }
                V::A(_) => return err("aggregate byte"),
            }
        }
        Ok(())
    }
    pub fn load_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj(st, addr)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + n > o.data.len() {
            return err(format!("out-of-bounds read of {} at {:#x} (object of {})", n, addr, o.data.len()));
        }
        let mut out = Vec::with_capacity(n);
        for i in off..off + n {
            match &o.sym {
                Some(s) if s[i] != 0 => out.push(self.byte_of(st, s[i])),
                _ => out.push(V::I(o.data[i] as u128)),
            }
        }
        Ok(out)
    }
    pub fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj(st, s)?;
        let soff = (s & 0xffff_ffff) as usize;
        if soff + n > so.data.len() {
            return err(format!("memcpy reads {} bytes at {:#x} (object of {})", n, s, so.data.len()));
        }
        let doff = (d & 0xffff_ffff) as usize;
        if so.sym.is_none() {
            let o = self.obj_mut(st, d)?;
            if doff + n > o.data.len() {
                return err(format!("memcpy writes {} bytes at {:#x} (object of {})", n, d, o.data.len()));
            }
            o.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
            if let Some(x) = &mut o.sym {
                x[doff..doff + n].iter_mut().for_each(|e| *e = 0)
            }
            return Ok(());
        }
        let b = self.load_bytes(st, s, n)?;
        self.store_bytes(st, d, &b)
    }
    pub fn load(&mut self, st: &State, ty: &Ty, addr: u64) -> R<V> {
        match ty {
            Ty::Int(w) => {
                if *w > 128 {
                    return err(format!("load of i{}", w));
                }
                let n = ((*w + 7) / 8) as usize;
                let v = self.load_int(st, addr, n)?;
                if *w % 8 != 0 {
                    return Ok(self.trunc(&v, *w as u8));
                }
                Ok(v)
            }
            Ty::Ptr | Ty::F64 => self.load_int(st, addr, 8),
            Ty::F32 => self.load_int(st, addr, 4),
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let mut v = Vec::with_capacity(*n as usize);
                let sz = t.size();
                for i in 0..*n {
                    v.push(self.load(st, t, addr + i * sz)?)
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for i in 0..f.len() {
                    let (o, t) = ty.field(i);
                    v.push(self.load(st, &t, addr + o)?)
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &V, addr: u64) -> R<()> {
        match ty {
            Ty::Int(w) => {
                if *w > 128 {
                    return err(format!("store of i{}", w));
                }
                self.store_int(st, addr, ((*w + 7) / 8) as usize, v, *w)
            }
            Ty::Ptr | Ty::F64 => self.store_int(st, addr, 8, v, 64),
            Ty::F32 => self.store_int(st, addr, 4, v, 32),
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let V::A(a) = v else { return err("store vec of scalar") };
                let sz = t.size();
                for i in 0..*n {
                    self.store(st, t, &a[i as usize], addr + i * sz)?
                }
                Ok(())
            }
            Ty::Struct(f, _) => {
                let V::A(a) = v else { return err("store struct of scalar") };
                for i in 0..f.len() {
                    let (o, t) = ty.field(i);
                    self.store(st, &t, &a[i], addr + o)?
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    /// Load through a symbolic address: constant tables become table expressions,
    /// everything else is made concrete by forking.
    fn load_sym(&mut self, st: &mut State, ty: &Ty, a: E) -> R<V> {
        if let Some(k) = st.known.get(&a) {
            let k = *k;
            return self.load(st, ty, k as u64);
        }
        let n = self.pool.n(a);
        if n.op == Op::Add && matches!(ty, Ty::Int(_) | Ty::Ptr) {
            if let Some(c) = self.pool.cval(n.b) {
                let c = c as u64;
                if let Ok(o) = self.obj(st, c) {
                    let bytes = ty.bytes() as usize;
                    let start = (c & 0xffff_ffff) as usize;
                    if o.data.len() <= 4096 && o.sym.is_none() && start + bytes <= o.data.len() {
                        // index scale: low constant-zero bits
                        let mut sh = 0u8;
                        while sh < 4 {
                            let b = self.pool.extract(n.a, sh, 1);
                            if self.pool.cval(b) == Some(0) {
                                sh += 1
                            } else {
                                break;
                            }
                        }
                        let entries = ((o.data.len() - start - bytes) >> sh) + 1;
                        if entries <= 1024 {
                            let idx = self.pool.extract(n.a, sh, 64 - sh);
                            let lim = self.pool.cst(entries as u128, 64 - sh);
                            let inb = self.pool.bin(Op::Ult, idx, lim);
                            let oob = self.pool.not(inb);
                            if self.feasible(st, oob).is_none() {
                                let mut t = Vec::with_capacity(entries);
                                for i in 0..entries {
                                    let p = start + (i << sh);
                                    let mut b = [0u8; 16];
                                    b[..bytes].copy_from_slice(&o.data[p..p + bytes]);
                                    t.push(u128::from_le_bytes(b) & mask(ty.bits() as u8));
                                }
                                // narrow the index as far as it goes
                                let bits = (usize::BITS - (entries.max(2) - 1).leading_zeros()) as u8;
                                let nidx = self.pool.extract(idx, 0, bits);
                                t.resize(1 << bits, 0);
                                let e = self.pool.table(t, ty.bits() as u8, nidx);
                                return Ok(self.from_e(e));
                            }
                        }
                    }
                }
            }
        }
        let k = self.conc(st, &V::S(a))?;
        self.load(st, ty, k as u64)
    }
    pub fn trunc(&mut self, v: &V, w: u8) -> V {
        match v {
            V::I(k) => V::I(k & mask(w)),
            V::S(e) => {
                let x = self.pool.extract(*e, 0, w);
                self.from_e(x)
            }
            v => v.clone(),
        }
    }

    // ---------------------------------------------------------------- values
    pub fn bin(&mut self, op: Op, w: u8, a: &V, b: &V) -> R<V> {
        if let (V::I(x), V::I(y)) = (a, b) {
            return match bin_eval(op, w, *x, *y) {
                Some(v) => Ok(V::I(v)),
                None => err("division by zero"),
            };
        }
        if let (V::A(_), _) | (_, V::A(_)) = (a, b) {
            return err("binary op on aggregate");
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let e = self.pool.bin(op, x, y);
        Ok(self.from_e(e))
    }
    pub fn icmp(&mut self, p: Pred, w: u8, a: &V, b: &V) -> R<V> {
        let (op, sw, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
        };
        let r = if sw { self.bin(op, w, b, a)? } else { self.bin(op, w, a, b)? };
        Ok(if neg {
            match r {
                V::I(k) => V::I(k ^ 1),
                V::S(e) => {
                    let x = self.pool.not(e);
                    self.from_e(x)
                }
                v => v,
            }
        } else {
            r
        })
    }
    fn flatten_bits(&mut self, v: &V, ty: &Ty) -> Vec<(V, u32)> {
        match (v, ty) {
            (V::A(a), Ty::Vec(_, t)) => a.iter().map(|x| (x.clone(), t.bits())).collect(),
            _ => vec![(v.clone(), ty.bits())],
        }
    }
    fn bitcast(&mut self, v: &V, from: &Ty, to: &Ty) -> R<V> {
        let parts = self.flatten_bits(v, from);
        let tw = to.scalar_w();
        let n = match to {
            Ty::Vec(n, _) => *n as usize,
            _ => 1,
        };
        let fw = parts[0].1;
        let mut out: Vec<V> = Vec::with_capacity(n);
        if fw == tw {
            out = parts.into_iter().map(|p| p.0).collect();
        } else if fw < tw {
            let per = (tw / fw) as usize;
            for ch in parts.chunks(per) {
                let mut acc = ch[0].0.clone();
                for (i, p) in ch.iter().enumerate().skip(1) {
                    acc = self.cat(&p.0, fw as u8, &acc, (i as u32 * fw) as u8);
                }
                out.push(acc);
            }
        } else {
            let per = fw / tw;
            for p in parts {
                for i in 0..per {
                    let x = match &p.0 {
                        V::I(k) => V::I((k >> (i * tw)) & mask(tw as u8)),
                        V::S(e) => {
                            let y = self.pool.extract(*e, (i * tw) as u8, tw as u8);
                            self.from_e(y)
                        }
                        _ => return err("bitcast"),
                    };
                    out.push(x);
                }
            }
        }
        Ok(if let Ty::Vec(..) = to { V::A(Rc::new(out)) } else { out.pop().unwrap() })
    }
    fn cast(&mut self, k: CastK, from: &Ty, to: &Ty, v: &V) -> R<V> {
        if k == CastK::Bitcast {
            return self.bitcast(v, from, to);
        }
        if let V::A(a) = v {
            let (Ty::Vec(_, f), Ty::Vec(_, t)) = (from, to) else { return err("cast agg") };
            let mut o = vec![];
            for x in a.iter() {
                o.push(self.cast(k, f, t, x)?)
            }
            return Ok(V::A(Rc::new(o)));
        }
        let (fw, tw) = (from.bits() as u8, to.bits() as u8);
        if from.bits() > 128 || to.bits() > 128 {
            return err("wide cast");
        }
        match (k, v) {
            (CastK::Zext, V::I(k)) => Ok(V::I(*k)),
            (CastK::Zext, V::S(e)) => {
                let x = self.pool.zext(*e, tw);
                Ok(self.from_e(x))
            }
            (CastK::Sext, V::I(k)) => Ok(V::I(sext(*k, fw) as u128 & mask(tw))),
            (CastK::Sext, V::S(e)) => {
                let x = self.pool.sext(*e, tw);
                Ok(self.from_e(x))
            }
            (CastK::Trunc, v) => Ok(self.trunc(v, tw)),
            (CastK::Same, v) => Ok(v.clone()),
            (_, V::I(x)) => {
                let f = |x: u128, t: &Ty| if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                let g = |d: f64, t: &Ty| if *t == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 };
                Ok(V::I(match k {
                    CastK::FpExt | CastK::FpTrunc => g(f(*x, from), to),
                    CastK::UiToFp => {
                        if *to == Ty::F32 {
                            (*x as f32).to_bits() as u128
                        } else {
                            (*x as f64).to_bits() as u128
                        }
                    }
                    CastK::SiToFp => {
                        let s = sext(*x, fw);
                        if *to == Ty::F32 {
                            (s as f32).to_bits() as u128
                        } else {
                            (s as f64).to_bits() as u128
                        }
                    }
                    CastK::FpToUi => (f(*x, from) as u128) & mask(tw),
                    CastK::FpToSi => (f(*x, from) as i128 as u128) & mask(tw),
                    _ => return err("cast"),
                }))
            }
            _ => err("float cast of symbolic value"),
        }
    }

    // ---------------------------------------------------------------- stepping
    pub fn where_am_i(&self, st: &State, n: usize) -> String {
        let mut v = vec![format!("{}:{}:{}", demangle(&st.top.f.name), st.top.blk, st.top.ip)];
        for f in st.frames.iter().rev() {
            if v.len() >= n {
                break;
            }
            v.push(demangle(&f.f.name));
        }
        v.join(" < ")
    }
    #[inline]
    fn get(&self, fr: &Frame, o: &Opd) -> V {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::C(v) => v.clone(),
        }
    }
    fn jump(&self, st: &mut State, e: &Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let v = self.get(&st.top, &e.copies[0].1);
                st.top.regs[e.copies[0].0 as usize] = v;
            }
            _ => {
                let vals: Vec<V> = e.copies.iter().map(|(_, o)| self.get(&st.top, o)).collect();
                for ((d, _), v) in e.copies.iter().zip(vals) {
                    st.top.regs[*d as usize] = v
                }
            }
        }
        st.top.blk = e.to;
        st.top.ip = 0;
    }
    pub fn call(&mut self, st: &mut State, fi: u32, args: Vec<V>) -> R<()> {
        let f = self.func(fi)?;
        if st.frames.len() >= self.max_depth {
            return Err(Stop::Fail(format!("call depth over {} (unbounded recursion?)", self.max_depth)));
        }
        *self.prof.entry(fi).or_default() += 1;
        let mut regs = vec![V::I(0); f.nregs as usize];
        for (r, v) in f.args.iter().zip(args) {
            regs[*r as usize] = v;
        }
        st.stack.push(Rc::new(Obj::new(f.frame as usize)));
        let new = Frame { f, blk: 0, ip: 0, regs };
        let old = std::mem::replace(&mut st.top, new);
        st.frames.push(Rc::new(old));
        Ok(())
    }
    /// After a call instruction of the current frame has produced its value.
    pub fn finish_call(&mut self, st: &mut State, v: Option<V>) {
        let f = st.top.f.clone();
        let ins = &f.blocks[st.top.blk as usize][st.top.ip as usize];
        let Ins::Call { d, normal, .. } = ins else { panic!("not at a call") };
        if let (Some(d), Some(v)) = (d, v) {
            st.top.regs[*d as usize] = v;
        }
        match normal {
            Some(e) => self.jump(st, e),
            None => st.top.ip += 1,
        }
    }
    fn addr(&mut self, st: &mut State, v: &V) -> R<u64> {
        match v {
            V::I(k) => Ok(*k as u64),
            v => Ok(self.conc(st, v)? as u64),
        }
    }
    /// Runs one state until its path ends.
    pub fn run(&mut self, mut st: State) {
        let r = loop {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.burst(&mut st))) {
                Ok(Ok(())) => {}
                Ok(Err(s)) => break s,
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                    break Stop::Error(format!("executor: {}", m.unwrap_or_default()));
                }
            }
        };
        self.finish(st, r);
    }
    pub fn finish(&mut self, st: State, r: Stop) {
        self.rep.instrs += st.icount;
        self.rep.max_path_instrs = self.rep.max_path_instrs.max(st.icount);
        match r {
            Stop::Done => {
                self.rep.paths += 1;
                for c in &st.covers {
                    *self.rep.covers.entry(*c).or_default() += 1;
                }
                let keep = self.rep.recs.len() < self.rec_cap;
                if keep {
                    let mut h = 0xcbf29ce484222325u64;
                    for o in &st.obs {
                        for b in o.iter() {
                            let v = match b {
                                V::I(k) => *k as u8,
                                V::S(e) => self.pool.eval(*e, &st.model) as u8,
                                _ => 0,
                            };
                            fnv(&mut h, v);
                        }
                    }
                    self.rep.recs.push(PathRec {
                        model: st.model.clone(),
                        hash: h,
                        covers: st.covers.iter().copied().collect(),
                    });
                }
            }
            Stop::Infeasible => self.rep.infeasible += 1,
            Stop::Fail(m) => {
                // a path that ran into a limit is expensive: do not collect many
                self.rep.nfails += if m.ends_with("?)") { 40 } else { 1 };
                // the report is the current entry's: another entry's failures do not count
                if self.rep.fails.iter().filter(|f| f.0 == m).count() < 6 {
                    self.rep.fails.push((m, st.model.clone()));
                }
            }
            Stop::Error(m) if m == OUT_OF_TIME => self.expired = true,
            Stop::Error(m) => {
                self.rep.nerrors += 1;
                if self.rep.errors.len() < 20 {
                    let w = self.where_am_i(&st, 12);
                    self.rep.errors.push((format!("{} at {}", m, w), st.model.clone()));
                }
            }
        }
    }
    fn burst(&mut self, st: &mut State) -> R<()> {
        let f = st.top.f.clone();
        // run inside one frame
        loop {
            st.icount += 1;
            if st.icount > self.max_instr {
                return Err(Stop::Fail(format!("not finished after {} instructions (endless loop?)", self.max_instr)));
            }
            let ins = &f.blocks[st.top.blk as usize][st.top.ip as usize];
            if self.trace {
                eprintln!("{} b{} i{} {:?}", f.name, st.top.blk, st.top.ip, ins);
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    st.top.regs[*$d as usize] = v;
                    st.top.ip += 1;
                }};
            }
            match ins {
                Ins::Bin { op, w, lanes, d, a, b } => {
                    let x = self.get(&st.top, a);
                    let y = self.get(&st.top, b);
                    if *lanes > 0 {
                        let (V::A(p), V::A(q)) = (&x, &y) else { return err("vector bin") };
                        let mut o = Vec::with_capacity(p.len());
                        for i in 0..p.len() {
                            o.push(self.bin(*op, *w, &p[i], &q[i])?)
                        }
                        set!(d, V::A(Rc::new(o)))
                    } else {
                        if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                            if let V::S(e) = &y {
                                let z = self.pool.cst(0, *w);
                                let c = self.pool.bin(Op::Eq, *e, z);
                                if self.feasible(st, c).is_some() {
                                    return err("symbolic division by zero");
                                }
                            }
                        }
                        set!(d, self.bin(*op, *w, &x, &y)?)
                    }
                }
                Ins::Icmp { p, w, lanes, d, a, b } => {
                    let x = self.get(&st.top, a);
                    let y = self.get(&st.top, b);
                    if *lanes > 0 {
                        let (V::A(s), V::A(q)) = (&x, &y) else { return err("vector icmp") };
                        let mut o = Vec::with_capacity(s.len());
                        for i in 0..s.len() {
                            o.push(self.icmp(*p, *w, &s[i], &q[i])?)
                        }
                        set!(d, V::A(Rc::new(o)))
                    } else {
                        set!(d, self.icmp(*p, *w, &x, &y)?)
                    }
                }
                Ins::Cast { k, from, to, d, a } => {
                    let mut x = self.get(&st.top, a);
                    if !matches!(k, CastK::Zext | CastK::Sext | CastK::Trunc | CastK::Same | CastK::Bitcast) {
                        x = self.conc_all(st, &x)?; // floating point is concrete
                    }
                    set!(d, self.cast(*k, from, to, &x)?)
                }
                Ins::Copy { d, a } => {
                    let x = self.get(&st.top, a);
                    set!(d, x)
                }
                Ins::Select { d, c, a, b, ty, vec } => {
                    let c = self.get(&st.top, c);
                    let x = self.get(&st.top, a);
                    let y = self.get(&st.top, b);
                    let r = if *vec {
                        let (V::A(c), V::A(x), V::A(y)) = (&c, &x, &y) else { return err("vector select") };
                        let Ty::Vec(_, et) = ty else { return err("vector select type") };
                        let mut o = vec![];
                        for i in 0..c.len() {
                            o.push(self.select(&c[i], &x[i], &y[i], et)?);
                        }
                        V::A(Rc::new(o))
                    } else {
                        self.select(&c, &x, &y, ty)?
                    };
                    set!(d, r)
                }
                Ins::Gep { d, base, off, idx } => {
                    let mut acc = self.get(&st.top, base);
                    if matches!(acc, V::A(_)) {
                        return err("vector gep");
                    }
                    if *off != 0 {
                        acc = self.bin(Op::Add, 64, &acc, &V::I(*off as u64 as u128))?;
                    }
                    for (o, w, sc) in idx {
                        let v = self.get(&st.top, o);
                        let v = match v {
                            V::I(k) => V::I((sext(k, *w) as i64).wrapping_mul(*sc) as u64 as u128),
                            V::S(e) => {
                                let x = self.pool.sext(e, 64);
                                let s = self.pool.cst(*sc as u64 as u128, 64);
                                let y = self.pool.bin(Op::Mul, x, s);
                                self.from_e(y)
                            }
                            _ => return err("vector gep"),
                        };
                        acc = self.bin(Op::Add, 64, &acc, &v)?;
                    }
                    set!(d, acc)
                }
                Ins::Load { d, ty, p } => {
                    let p = self.get(&st.top, p);
                    let v = match p {
                        V::I(k) => self.load(st, ty, k as u64)?,
                        V::S(e) => self.load_sym(st, ty, e)?,
                        _ => return err("load address"),
                    };
                    set!(d, v)
                }
                Ins::Store { ty, v, p } => {
                    let p = self.get(&st.top, p);
                    let v = self.get(&st.top, v);
                    let a = self.addr(st, &p)?;
                    self.store(st, ty, &v, a)?;
                    st.top.ip += 1;
                }
                Ins::Alloca { d, off } => {
                    let a = (STACK_ID + (st.stack.len() as u64 - 1)) << 32 | off;
                    set!(d, V::I(a as u128))
                }
                Ins::Br { e } => self.jump(st, e),
                Ins::CondBr { c, t, f: fe } => {
                    let c = self.get(&st.top, c);
                    let b = self.decide(st, &c)?;
                    self.jump(st, if b { t } else { fe });
                }
                Ins::Switch { v, w, cases, def, map } => {
                    let v = self.get(&st.top, v);
                    match v {
                        V::I(k) => match map.get(&k) {
                            Some(i) => self.jump(st, &cases[*i as usize].1),
                            None => self.jump(st, def),
                        },
                        V::S(e) => {
                            // group cases by identical edges
                            let mut groups: Vec<(E, &Edge)> = vec![];
                            let mut any = self.pool.cst(0, 1);
                            for (k, ed) in cases {
                                let kc = self.pool.cst(*k, *w);
                                let c = self.pool.bin(Op::Eq, e, kc);
                                any = self.pool.bin(Op::Or, any, c);
                                match groups.iter_mut().find(|g| same_edge(g.1, ed)) {
                                    Some(g) => g.0 = self.pool.bin(Op::Or, g.0, c),
                                    None => groups.push((c, ed)),
                                }
                            }
                            let dc = self.pool.not(any);
                            match groups.iter_mut().find(|g| same_edge(g.1, def)) {
                                Some(g) => g.0 = self.pool.bin(Op::Or, g.0, dc),
                                None => groups.push((dc, def)),
                            }
                            let mut mine: Option<(E, &Edge)> = None;
                            let mut others: Vec<(E, &Edge, Vec<u8>)> = vec![];
                            for (c, ed) in groups {
                                if mine.is_none() && self.pool.eval(c, &st.model) == 1 {
                                    mine = Some((c, ed));
                                } else if let Some(m) = self.feasible(st, c) {
                                    others.push((c, ed, m));
                                }
                            }
                            if !others.is_empty() {
                                st.forks += 1;
                            }
                            for (c, ed, m) in others {
                                let mut o = st.clone();
                                o.model = m;
                                self.add(&mut o, c);
                                self.jump(&mut o, ed);
                                self.push_state(o);
                            }
                            let (c, ed) = mine.expect("switch: model matches no case");
                            self.add(st, c);
                            self.jump(st, ed);
                        }
                        _ => return err("switch value"),
                    }
                }
                Ins::Ret { v } => {
                    let v = v.as_ref().map(|o| self.get(&st.top, o));
                    st.stack.pop();
                    match st.frames.pop() {
                        None => return Err(Stop::Done),
                        Some(fr) => {
                            st.top = match Rc::try_unwrap(fr) {
                                Ok(f) => f,
                                Err(r) => (*r).clone(),
                            };
                            self.finish_call(st, v);
                            return Ok(());
                        }
                    }
                }
                Ins::Call { d: _, f: callee, args, ret, argtys, .. } => {
                    let fi = match callee {
                        Callee::Fn(i) => *i,
                        Callee::Ind(o) => {
                            let v = self.get(&st.top, o);
                            let a = self.addr(st, &v)?;
                            if a < FN_BASE {
                                return err(format!("indirect call to {:#x}", a));
                            }
                            ((a - FN_BASE) / 16) as u32
                        }
                        Callee::Asm(s) => {
                            let v = self.asm(s, ret)?;
                            self.finish_call(st, v);
                            continue;
                        }
                    };
                    let vals: Vec<V> = args.iter().map(|o| self.get(&st.top, o)).collect();
                    if let Some(b) = self.builtin[fi as usize] {
                        let depth = st.frames.len();
                        let v = self.run_builtin(st, b, fi, vals, ret, argtys)?;
                        if st.frames.len() != depth {
                            return Ok(()); // the builtin pushed a frame
                        }
                        self.finish_call(st, v);
                        continue;
                    }
                    self.call(st, fi, vals)?;
                    return Ok(());
                }
                Ins::ExtractValue { d, a, idx } => {
                    let mut v = self.get(&st.top, a);
                    for i in idx {
                        v = match v {
                            V::A(x) => x[*i as usize].clone(),
                            _ => return err("extractvalue"),
                        }
                    }
                    set!(d, v)
                }
                Ins::InsertValue { d, a, v, idx } => {
                    let a = self.get(&st.top, a);
                    let v = self.get(&st.top, v);
                    fn ins(a: &V, v: V, idx: &[u32]) -> V {
                        let V::A(x) = a else { return v };
                        let mut y = (**x).clone();
                        let i = idx[0] as usize;
                        y[i] = if idx.len() == 1 { v } else { ins(&y[i], v, &idx[1..]) };
                        V::A(Rc::new(y))
                    }
                    set!(d, ins(&a, v, idx))
                }
                Ins::ExtractElement { d, a, i } => {
                    let a = self.get(&st.top, a);
                    let i = self.get(&st.top, i);
                    let i = self.conc(st, &i)?;
                    let V::A(x) = a else { return err("extractelement") };
                    let v = x[i as usize].clone();
                    set!(d, v)
                }
                Ins::InsertElement { d, a, v, i } => {
                    let a = self.get(&st.top, a);
                    let v = self.get(&st.top, v);
                    let i = self.get(&st.top, i);
                    let i = self.conc(st, &i)?;
                    let V::A(x) = a else { return err("insertelement") };
                    let mut y = (*x).clone();
                    y[i as usize] = v;
                    set!(d, V::A(Rc::new(y)))
                }
                Ins::Shuffle { d, a, b, mask } => {
                    let (V::A(x), V::A(y)) = (self.get(&st.top, a), self.get(&st.top, b)) else {
                        return err("shuffle");
                    };
                    let n = x.len() as i64;
                    let o = mask
                        .iter()
                        .map(|m| if *m < n { x[*m as usize].clone() } else { y[(*m - n) as usize].clone() })
                        .collect();
                    set!(d, V::A(Rc::new(o)))
                }
                Ins::Rmw { d, op, w, p, v } => {
                    let p = self.get(&st.top, p);
                    let v = self.get(&st.top, v);
                    let a = self.addr(st, &p)?;
                    let old = self.load_int(st, a, *w as usize / 8)?;
                    let new = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin(Op::Add, *w, &old, &v)?,
                        "sub" => self.bin(Op::Sub, *w, &old, &v)?,
                        "and" => self.bin(Op::And, *w, &old, &v)?,
                        "or" => self.bin(Op::Or, *w, &old, &v)?,
                        "xor" => self.bin(Op::Xor, *w, &old, &v)?,
                        o => return err(format!("atomicrmw {}", o)),
                    };
                    self.store_int(st, a, *w as usize / 8, &new, *w as u32)?;
                    set!(d, old)
                }
                Ins::CmpXchg { d, w, p, c, n } => {
                    let p = self.get(&st.top, p);
                    let c = self.get(&st.top, c);
                    let n = self.get(&st.top, n);
                    let a = self.addr(st, &p)?;
                    let old = self.load_int(st, a, *w as usize / 8)?;
                    let eq = self.icmp(Pred::Eq, *w, &old, &c)?;
                    let b = self.decide(st, &eq)?;
                    if b {
                        self.store_int(st, a, *w as usize / 8, &n, *w as u32)?;
                    }
                    set!(d, V::A(Rc::new(vec![old, V::I(b as u128)])))
                }
                Ins::FBin { op, ty, d, a, b } => {
                    let (x, y) = (self.get(&st.top, a), self.get(&st.top, b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    let r = match ty {
                        Ty::F64 => {
                            let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                            fop(*op, x, y).to_bits() as u128
                        }
                        Ty::F32 => {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                b'a' => x + y,
                                b's' => x - y,
                                b'm' => x * y,
                                b'd' => x / y,
                                _ => x % y,
                            })
                            .to_bits() as u128
                        }
                        _ => return err("float vector"),
                    };
                    set!(d, V::I(r))
                }
                Ins::FNeg { ty, d, a } => {
                    let x = self.get(&st.top, a);
                    let x = self.conc(st, &x)?;
                    let bit = if *ty == Ty::F32 { 31 } else { 63 };
                    set!(d, V::I(x ^ (1u128 << bit)))
                }
                Ins::FCmp { pred, ty, d, a, b } => {
                    let (x, y) = (self.get(&st.top, a), self.get(&st.top, b));
                    let (x, y) = (self.conc(st, &x)?, self.conc(st, &y)?);
                    let (x, y) = match ty {
                        Ty::F64 => (f64::from_bits(x as u64), f64::from_bits(y as u64)),
                        Ty::F32 => (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64),
                        _ => return err("float vector"),
                    };
                    let un = x.is_nan() || y.is_nan();
                    let r = match pred.as_str() {
                        "oeq" => x == y,
                        "une" => x != y,
                        "olt" => x < y,
                        "ole" => x <= y,
                        "ogt" => x > y,
                        "oge" => x >= y,
                        "one" => !un && x != y,
                        "ueq" => un || x == y,
                        "ult" => un || x < y,
                        "ule" => un || x <= y,
                        "ugt" => un || x > y,
                        "uge" => un || x >= y,
                        "ord" => !un,
                        "uno" => un,
                        p => return err(format!("fcmp {}", p)),
                    };
                    set!(d, V::I(r as u128))
                }
                Ins::Unreachable => return err("reached unreachable"),
                Ins::DynAlloca => return err("dynamic alloca"),
                Ins::Bad(s) => return err(format!("unsupported instruction {}", s)),
            }
        }
    }
    pub fn select(&mut self, c: &V, x: &V, y: &V, ty: &Ty) -> R<V> {
        let e = match c {
            V::I(k) => return Ok(if *k & 1 == 1 { x.clone() } else { y.clone() }),
            V::S(e) => *e,
            _ => return err("select condition"),
        };
        if x == y {
            return Ok(x.clone());
        }
        match (x, y) {
            (V::A(p), V::A(q)) => {
                let mut v = vec![];
                for i in 0..p.len() {
                    let t = match ty {
                        Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
                        _ => ty.field(i).1,
                    };
                    v.push(self.select(c, &p[i], &q[i], &t)?)
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let w = ty.bits() as u8;
                let p = self.to_e(x, w);
                let q = self.to_e(y, w);
                let r = self.pool.ite(e, p, q);
                Ok(self.from_e(r))
            }
        }
    }
    fn asm(&mut self, s: &str, ret: &Ty) -> R<Option<V>> {
        fn zero(t: &Ty) -> V {
            match t {
                Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero).collect())),
                Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new(vec![zero(t); *n as usize])),
                _ => V::I(0),
            }
        }
        if s.contains("cpuid") {
            // a processor without optional features
            return Ok(Some(zero(ret)));
        }
        if s.trim().is_empty() {
            return Ok(Some(zero(ret)));
        }
        err(format!("inline asm {:?}", s))
    }
}

fn fop(op: u8, x: f64, y: f64) -> f64 {
    match op {
        b'a' => x + y,
        b's' => x - y,
        b'm' => x * y,
        b'd' => x / y,
        _ => x % y,
    }
}

fn same_edge(a: &Edge, b: &Edge) -> bool {
    if a.to != b.to || a.copies.len() != b.copies.len() {
        return false;
    }
    a.copies.iter().zip(&b.copies).all(|(x, y)| {
        x.0 == y.0
            && match (&x.1, &y.1) {
                (Opd::R(p), Opd::R(q)) => p == q,
                (Opd::C(p), Opd::C(q)) => p == q,
                _ => false,
            }
    })
}

/// A short readable form of a v0-mangled name: the identifiers in it.
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1
            }
            let n: usize = s[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1
            }
            if n >= 2 && j + n <= b.len() && b[j..j + n].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                let id = &s[j..j + n];
                out.push(id.to_string());
                i = j + n;
                continue;
            }
        } else if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s..._
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        i += 1;
    }
    let k = out.len().min(8);
    out[..k].join("::")
}
