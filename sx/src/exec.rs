//! Symbolic interpreter for LLVM IR: forked states, byte-granular objects,
//! one 256 MiB address slot per object.
use crate::expr::*;
use crate::libc::Fs;
use crate::parse::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Const,
    Global,
    Stack,
    Heap,
    File,
    Map(u64), // id of the mapped file object
}
#[derive(Clone, Debug)]
pub struct Obj {
    pub base: u64,
    pub kind: Kind,
    pub data: Vec<u8>,
    pub sym: BTreeMap<u64, Ex>,
}

pub struct ModelBox {
    pub m: Model,
    pub memo: RefCell<HashMap<Ex, u128>>,
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: HashMap<u64, Rc<Obj>>,
    pub next_id: u64,
    pub pc: Vec<Ex>,
    pub known: HashMap<Ex, u64>,
    pub model: Rc<ModelBox>,
    pub inputs: Vec<(Ex, u32)>,
    pub notes: Vec<(u64, V)>,
    pub covers: BTreeSet<u64>,
    pub exc: u64,
    pub panic_at: String,
    pub fs: Fs,
    pub errno: u64,
    pub forks: u64,
    pub expect: u64,
    pub live_heap: i64,
}

pub enum Sig {
    Done,
    Infeasible,
    Violation(String, String),
    Inconclusive(String),
}
pub enum Flow {
    Next(V),
    Moved, // frames changed already (unwinding)
    Body,  // carry on with the real function
}
pub type R<T> = Result<T, Sig>;
pub type Native = fn(&mut Engine, &mut State, &[V], &CallI) -> R<Flow>;

#[derive(Clone)]
pub struct Found {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u64, u32)>,
    pub notes: Vec<(u64, u64)>,
    pub trace: Vec<String>,
}
pub struct PathEnd {
    pub inputs: Vec<(u64, u32)>,
    pub notes: Vec<(u64, u64)>,
}

pub enum Target {
    Unknown,
    Native(Native),
    Body(Rc<Func>),
}

pub struct Engine {
    pub prog: Program,
    pub pool: Pool,
    pub solver: Solver,
    pub work: Vec<State>,
    pub targets: Vec<Option<Rc<Target>>>,
    pub natives: HashMap<&'static str, Native>,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_solved: u64,
    pub paths: Vec<PathEnd>,
    pub npaths: u64,
    pub infeasible: u64,
    pub found: Vec<Found>,
    pub covers: BTreeSet<u64>,
    pub expect: u64,
    pub called: BTreeSet<SymId>,
    pub start: Instant,
    pub time_limit: f64,
    pub max_paths: u64,
    pub render: bool,
    pub fan: u64,
    pub globals: HashMap<u64, Rc<Obj>>,
    pub params: Vec<u64>,
}

fn viol<T>(kind: &str, msg: String) -> R<T> {
    Err(Sig::Violation(kind.to_string(), msg))
}
pub fn inconclusive<T>(m: String) -> R<T> {
    Err(Sig::Inconclusive(m))
}

impl Engine {
    // ---- values -----------------------------------------------------------
    pub fn ex(&mut self, v: &V, w: u32) -> Ex {
        match v {
            V::C(c) => self.pool.konst(*c as u128, w),
            V::S(e) => {
                let ew = self.pool.w(*e);
                if ew != w {
                    die(&format!("width {} expected, found {}", w, ew));
                }
                *e
            }
            V::A(_) => die("scalar expected"),
        }
    }
    pub fn val(&self, e: Ex) -> V {
        let n = self.pool.n(e);
        if n.op == Op::Const && n.w <= 64 {
            V::C(n.imm as u64)
        } else {
            V::S(e)
        }
    }
    pub fn bin(&mut self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            if w == 64 {
                match op {
                    Op::Add => return V::C(x.wrapping_add(y)),
                    Op::Sub => return V::C(x.wrapping_sub(y)),
                    Op::And => return V::C(x & y),
                    Op::Or => return V::C(x | y),
                    Op::Xor => return V::C(x ^ y),
                    _ => {}
                }
            }
            return V::C(Pool::fold(op, w, x as u128, y as u128) as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let r = self.pool.bin(op, x, y);
        self.val(r)
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        use Pred::*;
        let (op, swap, neg) = match p {
            Eq => (Op::Eq, false, false),
            Ne => (Op::Eq, false, true),
            Ult => (Op::Ult, false, false),
            Ule => (Op::Ule, false, false),
            Ugt => (Op::Ult, true, false),
            Uge => (Op::Ule, true, false),
            Slt => (Op::Slt, false, false),
            Sle => (Op::Sle, false, false),
            Sgt => (Op::Slt, true, false),
            Sge => (Op::Sle, true, false),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) {
            let r = Pool::fold(op, w, *x as u128, *y as u128) as u64;
            return V::C(r ^ neg as u64);
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let mut r = self.pool.bin(op, x, y);
        if neg {
            r = self.pool.not(r);
        }
        self.val(r)
    }
    pub fn cast(&mut self, k: CastK, fw: u32, tw: u32, a: &V) -> V {
        match (k, a) {
            (CastK::Same, _) => a.clone(),
            (CastK::Trunc, V::C(c)) => V::C((*c as u128 & mask(tw)) as u64),
            (CastK::Zext, V::C(c)) if tw <= 64 => V::C(*c),
            (CastK::Sext, V::C(c)) if tw <= 64 => {
                V::C((sx(*c as u128, fw) as u128 & mask(tw)) as u64)
            }
            (CastK::Trunc, _) => {
                let e = self.ex(a, fw);
                let r = self.pool.extract(e, 0, tw);
                self.val(r)
            }
            (CastK::Zext, _) => {
                let e = self.ex(a, fw);
                let r = self.pool.zext(e, tw);
                self.val(r)
            }
            (CastK::Sext, _) => {
                let e = self.ex(a, fw);
                let r = self.pool.sext(e, tw);
                self.val(r)
            }
            (_, V::C(c)) => {
                let c = *c;
                let f = |w: u32, c: u64| -> f64 {
                    if w == 32 {
                        f32::from_bits(c as u32) as f64
                    } else {
                        f64::from_bits(c)
                    }
                };
                let t = |w: u32, x: f64| -> u64 {
                    if w == 32 {
                        (x as f32).to_bits() as u64
                    } else {
                        x.to_bits()
                    }
                };
                V::C(match k {
                    CastK::FpExt | CastK::FpTrunc => t(tw, f(fw, c)),
                    CastK::UiToFp => {
                        if tw == 32 {
                            (c as f32).to_bits() as u64
                        } else {
                            (c as f64).to_bits()
                        }
                    }
                    CastK::SiToFp => {
                        let s = sx(c as u128, fw) as i64;
                        if tw == 32 {
                            (s as f32).to_bits() as u64
                        } else {
                            (s as f64).to_bits()
                        }
                    }
                    CastK::FpToUi => (f(fw, c) as u64 as u128 & mask(tw)) as u64,
                    _ => (f(fw, c) as i64 as u128 & mask(tw)) as u64,
                })
            }
            _ => die("symbolic floating point"),
        }
    }

    // ---- path conditions ---------------------------------------------------
    pub fn eval(&mut self, st: &State, e: Ex) -> u128 {
        let mb = st.model.clone();
        let mut memo = mb.memo.borrow_mut();
        self.pool.eval(e, &mb.m, &mut memo)
    }
    pub fn add_pc(&mut self, st: &mut State, e: Ex) {
        let n = self.pool.n(e);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        st.known.insert(e, 1);
        let neg = self.pool.not(e);
        st.known.insert(neg, 0);
        if n.op == Op::Eq {
            if let Some(k) = self.pool.as_const(n.b) {
                if self.pool.w(n.a) <= 64 {
                    st.known.insert(n.a, k as u64);
                }
            }
        }
        st.pc.push(e);
    }
    fn set_model(st: &mut State, m: Model) {
        st.model = Rc::new(ModelBox { m, memo: RefCell::new(HashMap::new()) });
    }
    /// Clone of `st` (about to execute the same instruction) under `c`.
    fn fork(&mut self, st: &State, c: Ex, m: Model) {
        let mut o = st.clone();
        self.add_pc(&mut o, c);
        Self::set_model(&mut o, m);
        o.forks += 1;
        self.forks += 1;
        self.work.push(o);
    }
    pub fn decide(&mut self, st: &mut State, v: &V) -> R<bool> {
        let e = match v {
            V::C(c) => return Ok(*c != 0),
            V::S(e) => *e,
            _ => die("condition"),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k != 0);
        }
        let here = self.eval(st, e) != 0;
        let neg = self.pool.not(e);
        let (mine, other) = if here { (e, neg) } else { (neg, e) };
        let mb = st.model.clone();
        match self.solver.check(&self.pool, &st.pc, other, &mb.m) {
            Some(m) => {
                self.fork(st, other, m);
                self.add_pc(st, mine);
            }
            None => {
                st.known.insert(e, here as u64);
            }
        }
        Ok(here)
    }
    pub fn concrete(&mut self, st: &mut State, v: &V, w: u32) -> R<u64> {
        let e = match v {
            V::C(c) => return Ok(*c),
            V::S(e) => *e,
            _ => die("scalar expected"),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        let x = self.eval(st, e);
        let k = self.pool.konst(x, w);
        let eq = self.pool.bin(Op::Eq, e, k);
        let ne = self.pool.not(eq);
        let mb = st.model.clone();
        if let Some(m) = self.solver.check(&self.pool, &st.pc, ne, &mb.m) {
            // bounded fan-out: an unbounded one is reported, never truncated
            if st.forks > self.fan {
                return inconclusive(format!("value fan-out above {}", self.fan));
            }
            self.fork(st, ne, m);
        }
        self.add_pc(st, eq);
        st.known.insert(e, x as u64);
        Ok(x as u64)
    }
    pub fn assume(&mut self, st: &mut State, v: &V) -> R<()> {
        match v {
            V::C(0) => Err(Sig::Infeasible),
            V::C(_) => Ok(()),
            V::S(e) => {
                let e = *e;
                if self.eval(st, e) == 0 {
                    let mb = st.model.clone();
                    match self.solver.check(&self.pool, &st.pc, e, &mb.m) {
                        Some(m) => Self::set_model(st, m),
                        None => return Err(Sig::Infeasible),
                    }
                }
                self.add_pc(st, e);
                Ok(())
            }
            _ => die("assume"),
        }
    }
    /// Violation unless `v` holds on every value of this path.
    pub fn require(&mut self, st: &mut State, v: &V, kind: &str, msg: &str) -> R<()> {
        self.asserts += 1;
        match v {
            V::C(0) => viol(kind, msg.to_string()),
            V::C(_) => Ok(()),
            V::S(e) => {
                self.asserts_solved += 1;
                let e = *e;
                if let Some(k) = st.known.get(&e) {
                    if *k != 0 {
                        return Ok(());
                    }
                }
                let neg = self.pool.not(e);
                let mb = st.model.clone();
                if let Some(m) = self.solver.check(&self.pool, &st.pc, neg, &mb.m) {
                    let mut bad = st.clone();
                    self.add_pc(&mut bad, neg);
                    Self::set_model(&mut bad, m);
                    self.report(&bad, kind, msg);
                    // carry on with the values that satisfy the requirement
                    return self.assume(st, v);
                }
                st.known.insert(e, 1);
                Ok(())
            }
            _ => die("assert"),
        }
    }

    // ---- memory --------------------------------------------------------------
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: Kind, fill: u8) -> u64 {
        let id = st.next_id;
        st.next_id += 1;
        // aligned to `align` and to nothing stricter
        let base = (id << SLOT) + BASE + align.min(4096);
        let o = Obj { base, kind, data: vec![fill; size as usize], sym: BTreeMap::new() };
        st.mem.insert(id, Rc::new(o));
        base
    }
    fn obj_id(&mut self, st: &mut State, addr: u64) -> R<u64> {
        let id = addr >> SLOT;
        if let Some(o) = st.mem.get(&id) {
            if let Kind::Map(f) = o.kind {
                return Ok(f);
            }
            return Ok(id);
        }
        if id >= FIRST_ID && ((id - FIRST_ID) as usize) < self.prog.syms.len() {
            // materialise a global
            if let Some(g) = self.globals.get(&id) {
                st.mem.insert(id, g.clone());
                return Ok(id);
            }
            let s = (id - FIRST_ID) as SymId;
            let sym = self.prog.syms[s as usize].clone();
            if sym.k != SymK::Global {
                return viol("memory", format!("access to the code or undefined symbol {}", sym.name));
            }
            let g = self.prog.global_init(s, &mut self.pool);
            let o = Rc::new(Obj {
                base: sym_addr(s),
                kind: if g.konst { Kind::Const } else { Kind::Global },
                data: g.bytes,
                sym: BTreeMap::new(),
            });
            self.globals.insert(id, o.clone());
            st.mem.insert(id, o);
            return Ok(id);
        }
        viol("memory", format!("access through a dangling or wild pointer {:#x}", addr))
    }
    /// (object id, offset) of an accessible range.
    pub fn range(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> R<(u64, usize)> {
        let id = self.obj_id(st, addr)?;
        let o = &st.mem[&id];
        let base = match st.mem.get(&(addr >> SLOT)) {
            Some(m) => m.base,
            None => o.base,
        };
        let off = addr.wrapping_sub(base);
        let size = o.data.len() as u64;
        if off > size || n > size - off {
            return viol(
                "memory",
                format!(
                    "out-of-bounds {} of {} bytes at offset {} of a {:?} object of {} bytes",
                    if write { "write" } else { "read" },
                    n,
                    off as i64,
                    o.kind,
                    size
                ),
            );
        }
        if write && (o.kind == Kind::Const || (addr >> SLOT) != id) {
            return viol("memory", "write to read-only memory".to_string());
        }
        Ok((id, off as usize))
    }
    pub fn obj_mut<'a>(&self, st: &'a mut State, id: u64) -> &'a mut Obj {
        Rc::make_mut(st.mem.get_mut(&id).unwrap())
    }
    pub fn load_int(&mut self, st: &mut State, addr: u64, n: u64) -> R<V> {
        let (id, off) = self.range(st, addr, n, false)?;
        let o = &st.mem[&id];
        let n = n as usize;
        if o.sym.is_empty() || o.sym.range(off as u64..(off + n) as u64).next().is_none() {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let v = u128::from_le_bytes(b);
            return Ok(if n <= 8 { V::C(v as u64) } else { V::S(self.pool.konst(v, n as u32 * 8)) });
        }
        let o = o.clone();
        let mut acc: Option<Ex> = None;
        for i in 0..n {
            let b = match o.sym.get(&((off + i) as u64)) {
                Some(e) => *e,
                None => self.pool.konst(o.data[off + i] as u128, 8),
            };
            acc = Some(match acc {
                None => b,
                Some(a) => self.pool.concat(b, a),
            });
        }
        Ok(self.val(acc.unwrap()))
    }
    pub fn store_int(&mut self, st: &mut State, addr: u64, n: u64, v: &V) -> R<()> {
        let (id, off) = self.range(st, addr, n, true)?;
        let n = n as usize;
        match v {
            V::C(c) => {
                let o = self.obj_mut(st, id);
                let b = (*c as u128).to_le_bytes();
                o.data[off..off + n].copy_from_slice(&b[..n]);
                if !o.sym.is_empty() {
                    for i in 0..n {
                        o.sym.remove(&((off + i) as u64));
                    }
                }
            }
            V::S(e) => {
                let w = self.pool.w(*e);
                let e = if (w as usize) < n * 8 { self.pool.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n {
                    let b = self.pool.extract(e, 8 * i as u32, 8);
                    let k = self.pool.as_const(b);
                    let o = self.obj_mut(st, id);
                    match k {
                        Some(c) => {
                            o.data[off + i] = c as u8;
                            o.sym.remove(&((off + i) as u64));
                        }
                        None => {
                            o.sym.insert((off + i) as u64, b);
                        }
                    }
                }
            }
            V::A(_) => die("store_int"),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, t: TyId, addr: u64) -> R<V> {
        let d = self.prog.td(t).clone();
        match &d.k {
            TyK::Arr(n, e) => {
                let s = self.prog.td(*e).size;
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(st, *e, addr + i * s)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            TyK::Vec(n, e) => {
                let s = self.prog.td(*e).size;
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load(st, *e, addr + i * s)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            TyK::Struct(f, _) => {
                let mut v = vec![];
                for (i, e) in f.iter().enumerate() {
                    v.push(self.load(st, *e, addr + d.offs[i])?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => {
                let w = self.prog.bits(t);
                let n = ((w + 7) / 8) as u64;
                let v = self.load_int(st, addr, n)?;
                if w % 8 != 0 {
                    return Ok(self.cast(CastK::Trunc, n as u32 * 8, w, &v));
                }
                Ok(v)
            }
        }
    }
    fn store(&mut self, st: &mut State, t: TyId, addr: u64, v: &V) -> R<()> {
        let d = self.prog.td(t).clone();
        match (&d.k, v) {
            (TyK::Arr(_, e), V::A(x)) | (TyK::Vec(_, e), V::A(x)) => {
                let s = self.prog.td(*e).size;
                for (i, y) in x.iter().enumerate() {
                    self.store(st, *e, addr + i as u64 * s, y)?;
                }
                Ok(())
            }
            (TyK::Struct(f, _), V::A(x)) => {
                for (i, y) in x.iter().enumerate() {
                    self.store(st, f[i], addr + d.offs[i], y)?;
                }
                Ok(())
            }
            _ => {
                let w = self.prog.bits(t);
                self.store_int(st, addr, ((w + 7) / 8) as u64, v)
            }
        }
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.range(st, src, n, false)?;
        let (di, d_o) = self.range(st, dst, n, true)?;
        let n = n as usize;
        let s = st.mem[&si].clone();
        if si == di {
            let tmp: Vec<u8> = s.data[so..so + n].to_vec();
            let syms: Vec<(u64, Ex)> =
                s.sym.range(so as u64..(so + n) as u64).map(|(k, v)| (*k, *v)).collect();
            drop(s);
            let d = self.obj_mut(st, di);
            d.data[d_o..d_o + n].copy_from_slice(&tmp);
            Self::put_syms(d, d_o, n, so, &syms);
        } else {
            let d = self.obj_mut(st, di);
            d.data[d_o..d_o + n].copy_from_slice(&s.data[so..so + n]);
            let syms: Vec<(u64, Ex)> =
                s.sym.range(so as u64..(so + n) as u64).map(|(k, v)| (*k, *v)).collect();
            Self::put_syms(d, d_o, n, so, &syms);
        }
        Ok(())
    }
    fn put_syms(d: &mut Obj, d_o: usize, n: usize, so: usize, syms: &[(u64, Ex)]) {
        if !d.sym.is_empty() {
            let ks: Vec<u64> =
                d.sym.range(d_o as u64..(d_o + n) as u64).map(|(k, _)| *k).collect();
            for k in ks {
                d.sym.remove(&k);
            }
        }
        for (k, v) in syms {
            d.sym.insert(k - so as u64 + d_o as u64, *v);
        }
    }
    pub fn fill(&mut self, st: &mut State, dst: u64, v: &V, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (di, d_o) = self.range(st, dst, n, true)?;
        let n = n as usize;
        let d = self.obj_mut(st, di);
        match v {
            V::C(c) => {
                for b in &mut d.data[d_o..d_o + n] {
                    *b = *c as u8;
                }
                Self::put_syms(d, d_o, n, 0, &[]);
            }
            V::S(e) => {
                for i in 0..n {
                    d.sym.insert((d_o + i) as u64, *e);
                }
            }
            _ => die("memset"),
        }
        Ok(())
    }
    /// Address of an access of `n` bytes: symbolic ones are first required to
    /// stay inside the object they point to under the current model.
    pub fn address(&mut self, st: &mut State, v: &V, _n: u64) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            _ => self.concrete(st, v, 64),
        }
    }
    /// The part of at most 8 bits that alone determines `e`.
    fn narrow(&self, e: Ex) -> Option<Option<Ex>> {
        let n = self.pool.n(e);
        match n.op {
            Op::Const => return Some(None),
            _ if n.w <= 8 => return Some(Some(e)),
            Op::Var | Op::Ite => return None,
            _ => {}
        }
        let a = self.narrow(n.a)?;
        if matches!(n.op, Op::Sext | Op::Extract) {
            return Some(a);
        }
        let b = self.narrow(n.b)?;
        match (a, b) {
            (Some(x), Some(y)) if x != y => None,
            _ => Some(a.or(b)),
        }
    }
    /// Read of a constant table at a place that a byte determines, if there
    /// are few different results.
    fn table(&mut self, st: &mut State, e: Ex, n: u64, align: u64) -> Option<V> {
        if st.known.contains_key(&e) {
            return None;
        }
        let leaf = self.narrow(e)??;
        if st.known.contains_key(&leaf) {
            return None;
        }
        let w = self.pool.w(leaf);
        let here = self.eval(st, e) as u64;
        let id = self.obj_id(st, here).ok()?;
        let o = st.mem[&id].clone();
        if o.kind != Kind::Const || !o.sym.is_empty() {
            return None;
        }
        let size = o.data.len() as u64;
        let mut runs: Vec<(u128, Option<u64>)> = vec![];
        let mut bad = self.pool.konst(0, 1);
        for i in 0..1u128 << w {
            let mut memo = HashMap::new();
            let mut m = Model::new();
            match self.pool.n(leaf) {
                l if l.op == Op::Var => {
                    m.insert(l.imm as u32, i);
                }
                _ => {
                    memo.insert(leaf, i);
                }
            }
            let at = (self.pool.eval(e, &m, &mut memo) as u64).wrapping_sub(o.base);
            let v = if at <= size && n <= size - at && (o.base + at) % align == 0 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&o.data[at as usize..(at + n) as usize]);
                Some(u64::from_le_bytes(b))
            } else {
                None
            };
            if runs.last().map_or(true, |r| r.1 != v) {
                runs.push((i, v));
                if runs.len() > 40 {
                    return None;
                }
            }
        }
        for (k, r) in runs.iter().enumerate() {
            if r.1.is_none() {
                let lo = self.pool.konst(r.0, w);
                let mut c = self.pool.bin(Op::Ule, lo, leaf);
                if let Some(next) = runs.get(k + 1) {
                    let hi = self.pool.konst(next.0, w);
                    let below = self.pool.bin(Op::Ult, leaf, hi);
                    c = self.pool.bin(Op::And, c, below);
                }
                bad = self.pool.bin(Op::Or, bad, c);
            }
        }
        let mb = st.model.clone();
        if self.solver.check(&self.pool, &st.pc, bad, &mb.m).is_some() {
            return None;
        }
        let runs: Vec<(u128, u64)> = runs.iter().filter_map(|r| r.1.map(|v| (r.0, v))).collect();
        let mut r = self.pool.konst(runs.last()?.1 as u128, n as u32 * 8);
        for k in (0..runs.len() - 1).rev() {
            let hi = self.pool.konst(runs[k + 1].0, w);
            let c = self.pool.bin(Op::Ult, leaf, hi);
            let v = self.pool.konst(runs[k].1 as u128, n as u32 * 8);
            r = self.pool.ite(c, v, r);
        }
        Some(self.val(r))
    }
    pub fn bytes(&mut self, st: &mut State, addr: u64, n: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        for i in 0..n {
            let v = self.load_int(st, addr + i, 1)?;
            out.push(self.concrete(st, &v, 8)? as u8);
        }
        Ok(out)
    }
    pub fn cstring(&mut self, st: &mut State, addr: u64) -> R<String> {
        let mut out = vec![];
        loop {
            let v = self.load_int(st, addr + out.len() as u64, 1)?;
            let b = self.concrete(st, &v, 8)? as u8;
            if b == 0 {
                // other bytes stand for themselves, so that names stay different
                return Ok(String::from_utf8(out).unwrap_or_else(|e| {
                    let private = |&b: &u8| if b < 0x80 { b as char } else { char::from_u32(0xf700 + b as u32).unwrap() };
                    e.as_bytes().iter().map(private).collect()
                }));
            }
            out.push(b);
        }
    }

    // ---- execution -------------------------------------------------------------
    pub fn initial(&mut self, entry: SymId) -> State {
        let f = self.prog.func(entry, &mut self.pool);
        let next_id = FIRST_ID + self.prog.syms.len() as u64 + 1;
        let nregs = f.nregs as usize;
        State {
            frames: vec![Frame {
                func: f,
                regs: vec![V::C(0); nregs],
                block: 0,
                ip: 0,
                allocas: vec![],
            }],
            mem: HashMap::new(),
            next_id,
            pc: vec![],
            known: HashMap::new(),
            model: Rc::new(ModelBox { m: Model::new(), memo: RefCell::new(HashMap::new()) }),
            inputs: vec![],
            notes: vec![],
            covers: BTreeSet::new(),
            exc: 0,
            panic_at: String::new(),
            fs: Fs::new(),
            errno: 0,
            forks: 0,
            expect: 0,
            live_heap: 0,
        }
    }
    pub fn demangle(n: &str) -> String {
        // v0 paths: collect the identifiers
        let b = n.as_bytes();
        let mut out: Vec<String> = vec![];
        let mut i = 2;
        while i < b.len() {
            if b[i].is_ascii_digit() && b[i] != b'0' {
                let mut k = 0usize;
                let mut j = i;
                while j < b.len() && b[j].is_ascii_digit() {
                    k = k * 10 + (b[j] - b'0') as usize;
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' && k > 0 && j + 1 + k <= b.len() && n[j + 1..j + 1 + k].starts_with('_') {
                    // separator before an identifier starting with `_` or a digit
                    j += 1;
                }
                if j + k <= b.len() && k > 0 && (b[j].is_ascii_alphabetic() || b[j] == b'_') {
                    out.push(n[j..j + k].to_string());
                    i = j + k;
                    continue;
                }
                i = j;
                continue;
            }
            if b[i] == b's' || b[i] == b'C' || b[i] == b'B' {
                // crate disambiguators and back references end in `_`
                let mut j = i + 1;
                if b[i] == b'C' && j < b.len() && b[j] == b's' {
                    j += 1;
                }
                let s = j;
                while j < b.len() && b[j].is_ascii_alphanumeric() {
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' && j >= s && j - s < 14 {
                    i = j + 1;
                    continue;
                }
            }
            i += 1;
        }
        if out.is_empty() {
            n.to_string()
        } else {
            out.join("::")
        }
    }
    fn snapshot(&mut self, st: &State) -> (Vec<(u64, u32)>, Vec<(u64, u64)>) {
        let mut ins = vec![];
        for (e, w) in st.inputs.clone() {
            ins.push((self.eval(st, e) as u64, w));
        }
        let mut ns = vec![];
        for (k, v) in st.notes.clone() {
            let x = match v {
                V::C(c) => c,
                V::S(e) => self.eval(st, e) as u64,
                _ => 0,
            };
            ns.push((k, x));
        }
        (ins, ns)
    }
    pub fn report(&mut self, st: &State, kind: &str, msg: &str) {
        if self.found.iter().filter(|f| f.kind == kind && f.msg == msg).count() >= 3
            || self.found.len() >= 40
        {
            return;
        }
        let (inputs, notes) = self.snapshot(st);
        let mut trace: Vec<String> = vec![];
        for f in st.frames.iter().rev() {
            let d = Self::demangle(&f.func.name);
            if trace.last() != Some(&d) {
                trace.push(d);
            }
        }
        trace.truncate(24);
        self.found.push(Found { kind: kind.to_string(), msg: msg.to_string(), inputs, notes, trace });
    }
    pub fn run(&mut self, entry: SymId) -> Result<(), String> {
        let st = self.initial(entry);
        self.called.insert(entry);
        self.work.push(st);
        // what was found decides; more of it is of little use
        let mut first_found = f64::INFINITY;
        let mut last_end = self.start.elapsed().as_secs_f64();
        while let Some(mut st) = self.work.pop() {
            let sig = loop {
                if let Err(s) = self.block(&mut st) {
                    break s;
                }
                if self.steps & 0x3ff == 0 && self.start.elapsed().as_secs_f64() > first_found + 40. {
                    return Ok(());
                }
                // nothing else takes so long; the native run decides
                if self.steps & 0x3ff == 0 && self.start.elapsed().as_secs_f64() > last_end + self.time_limit * 0.5 {
                    self.report(&st, "hang", "no end of the path");
                    return Ok(());
                }
                if self.steps & 0x3ff == 0 && self.start.elapsed().as_secs_f64() > self.time_limit {
                    return Err(format!("time limit of {} s", self.time_limit));
                }
            };
            last_end = self.start.elapsed().as_secs_f64();
            match sig {
                Sig::Done => {
                    self.npaths += 1;
                    self.covers.extend(st.covers.iter().copied());
                    self.expect = self.expect.max(st.expect);
                    let (inputs, notes) = self.snapshot(&st);
                    if self.paths.len() < 4000 {
                        self.paths.push(PathEnd { inputs, notes });
                    }
                }
                Sig::Infeasible => self.infeasible += 1,
                Sig::Violation(k, m) => {
                    self.npaths += 1;
                    self.covers.extend(st.covers.iter().copied());
                    self.expect = self.expect.max(st.expect);
                    self.report(&st, &k, &m);
                    first_found = first_found.min(last_end);
                    if self.found.len() >= 40 || last_end > first_found + 40. {
                        return Ok(());
                    }
                }
                Sig::Inconclusive(m) => {
                    let mut tr: Vec<String> = vec![];
                    for f in st.frames.iter().rev().take(12) {
                        tr.push(Self::demangle(&f.func.name));
                    }
                    return Err(format!("{} in {}", m, tr.join(" < ")));
                }
            }
            if self.npaths > self.max_paths {
                return Err(format!("more than {} paths", self.max_paths));
            }
            if self.start.elapsed().as_secs_f64() > self.time_limit {
                return Err(format!("time limit of {} s", self.time_limit));
            }
        }
        Ok(())
    }
    #[inline]
    fn op<'a>(fr: &'a Frame, o: &'a Opnd) -> &'a V {
        match o {
            Opnd::R(r) => &fr.regs[*r as usize],
            Opnd::K(v) => v,
        }
    }
    fn goto(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.block;
        let f = fr.func.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                match p.inc.iter().find(|x| x.0 == from) {
                    Some((_, o)) => vals.push((p.dst, Self::op(fr, o).clone())),
                    None => die("phi without a matching predecessor"),
                }
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = to;
        fr.ip = 0;
    }
    /// Execute until control leaves the current block.
    fn block(&mut self, st: &mut State) -> R<()> {
        let f = st.frames.last().unwrap().func.clone();
        let blk = st.frames.last().unwrap().block;
        let depth = st.frames.len();
        let b = &f.blocks[blk as usize];
        loop {
            let ip = st.frames.last().unwrap().ip as usize;
            let ins = &b.ins[ip];
            self.steps += 1;
            if self.steps & 0xfffff == 0
                && self.start.elapsed().as_secs_f64() > self.time_limit
            {
                return inconclusive(format!("time limit of {} s", self.time_limit));
            }
            if !self.step(st, ins)? {
                return Ok(());
            }
            debug_assert_eq!(st.frames.len(), depth);
            st.frames.last_mut().unwrap().ip += 1;
        }
    }
    fn set(st: &mut State, d: u32, v: V) {
        st.frames.last_mut().unwrap().regs[d as usize] = v;
    }
    fn get(st: &State, o: &Opnd) -> V {
        Self::op(st.frames.last().unwrap(), o).clone()
    }
    /// true: go on with the next instruction of the block.
    fn step(&mut self, st: &mut State, ins: &Ins) -> R<bool> {
        match ins {
            Ins::Bin { op, w, lanes, dst, a, b } => {
                let fr = st.frames.last().unwrap();
                if *lanes == 0 {
                    let (x, y) = (Self::op(fr, a), Self::op(fr, b));
                    let r = if let (V::C(_), V::C(_)) = (x, y) {
                        self.bin(*op, *w, x, y)
                    } else {
                        let (x, y) = (x.clone(), y.clone());
                        self.bin(*op, *w, &x, &y)
                    };
                    Self::set(st, *dst, r);
                } else {
                    let (x, y) = (Self::get(st, a), Self::get(st, b));
                    let r = self.lanewise(&x, &y, |s, p, q| s.bin(*op, *w, p, q));
                    Self::set(st, *dst, r);
                }
            }
            Ins::ICmp { p, w, lanes, dst, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let r = if *lanes == 0 {
                    self.icmp(*p, *w, &x, &y)
                } else {
                    self.lanewise(&x, &y, |s, m, n| s.icmp(*p, *w, m, n))
                };
                Self::set(st, *dst, r);
            }
            Ins::Cast { k, fw, tw, lanes, dst, a } => {
                let x = Self::get(st, a);
                let r = if *lanes == 0 {
                    self.cast(*k, *fw, *tw, &x)
                } else {
                    self.lanewise(&x, &x, |s, m, _| s.cast(*k, *fw, *tw, m))
                };
                Self::set(st, *dst, r);
            }
            Ins::BitCast { from, to, dst, a } => {
                let x = Self::get(st, a);
                let r = self.bitcast(*from, *to, &x);
                Self::set(st, *dst, r);
            }
            Ins::FBin { op, w, dst, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let (x, y) = match (x, y) {
                    (V::C(x), V::C(y)) => (x, y),
                    _ => return inconclusive("symbolic floating point".into()),
                };
                macro_rules! f {
                    ($x:expr, $y:expr) => {
                        match op {
                            b'a' => $x + $y,
                            b's' => $x - $y,
                            b'm' => $x * $y,
                            b'd' => $x / $y,
                            _ => $x % $y,
                        }
                    };
                }
                let r = if *w == 32 {
                    f!(f32::from_bits(x as u32), f32::from_bits(y as u32)).to_bits() as u64
                } else {
                    f!(f64::from_bits(x), f64::from_bits(y)).to_bits()
                };
                Self::set(st, *dst, V::C(r));
            }
            Ins::FCmp { p, w, dst, a, b } => {
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let (x, y) = match (x, y) {
                    (V::C(x), V::C(y)) if *w == 32 => {
                        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                    }
                    (V::C(x), V::C(y)) => (f64::from_bits(x), f64::from_bits(y)),
                    _ => return inconclusive("symbolic floating point".into()),
                };
                let uno = x.is_nan() || y.is_nan();
                let r = match p.as_str() {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !uno && x != y,
                    "ord" => !uno,
                    "uno" => uno,
                    "ueq" => uno || x == y,
                    "une" => x != y,
                    "ugt" => !(x <= y),
                    "uge" => !(x < y),
                    "ult" => !(x >= y),
                    "ule" => !(x > y),
                    "true" => true,
                    _ => false,
                };
                Self::set(st, *dst, V::C(r as u64));
            }
            Ins::Select { ty, lanes, dst, c, a, b } => {
                let (c, x, y) = (Self::get(st, c), Self::get(st, a), Self::get(st, b));
                let r = if *lanes > 0 {
                    let w = self.prog.bits(*ty);
                    match (&c, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => {
                            let mut o = vec![];
                            for i in 0..c.len() {
                                o.push(self.select(&c[i], &x[i], &y[i], w));
                            }
                            V::A(Rc::new(o))
                        }
                        _ => die("vector select"),
                    }
                } else if let V::C(k) = c {
                    if k != 0 {
                        x
                    } else {
                        y
                    }
                } else if matches!(x, V::A(_)) {
                    if self.decide(st, &c)? {
                        x
                    } else {
                        y
                    }
                } else {
                    let w = self.prog.bits(*ty);
                    self.select(&c, &x, &y, w)
                };
                Self::set(st, *dst, r);
            }
            Ins::Load { ty, align, dst, p } => {
                let pv = Self::get(st, p);
                let size = self.prog.td(*ty).size;
                if let (V::S(e), TyK::Int(w)) = (&pv, &self.prog.td(*ty).k) {
                    let (e, w) = (*e, *w);
                    if w <= 64 && w % 8 == 0 {
                        if let Some(v) = self.table(st, e, size, (*align).max(1)) {
                            Self::set(st, *dst, v);
                            return Ok(true);
                        }
                    }
                }
                let addr = self.address(st, &pv, size)?;
                if *align > 1 && addr & (*align - 1) != 0 {
                    return viol("memory", format!("misaligned read ({} expected)", align));
                }
                let v = self.load(st, *ty, addr)?;
                Self::set(st, *dst, v);
            }
            Ins::Store { ty, align, v, p } => {
                let pv = Self::get(st, p);
                let size = self.prog.td(*ty).size;
                let addr = self.address(st, &pv, size)?;
                if *align > 1 && addr & (*align - 1) != 0 {
                    return viol("memory", format!("misaligned write ({} expected)", align));
                }
                let v = Self::get(st, v);
                self.store(st, *ty, addr, &v)?;
            }
            Ins::Gep { dst, base, off, idx } => {
                let mut r = Self::get(st, base);
                if *off != 0 {
                    r = self.bin(Op::Add, 64, &r, &V::C(*off as u64));
                }
                for (o, w, scale) in idx {
                    let i = Self::get(st, o);
                    let i = if *w < 64 { self.cast(CastK::Sext, *w, 64, &i) } else { i };
                    let d = self.bin(Op::Mul, 64, &i, &V::C(*scale));
                    r = self.bin(Op::Add, 64, &r, &d);
                }
                Self::set(st, *dst, r);
            }
            Ins::Alloca { dst, size, n, align } => {
                let k = match n {
                    None => 1,
                    Some(o) => {
                        let v = Self::get(st, o);
                        self.concrete(st, &v, 64)?
                    }
                };
                let a = self.alloc(st, size * k, *align, Kind::Stack, 0xA5);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(a >> SLOT);
                fr.regs[*dst as usize] = V::C(a);
            }
            Ins::ExtractV { dst, a, path } => {
                let mut v = Self::get(st, a);
                for i in path {
                    v = match v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => die("extractvalue"),
                    };
                }
                Self::set(st, *dst, v);
            }
            Ins::InsertV { dst, a, v, path, ty } => {
                let mut base = Self::get(st, a);
                if !matches!(base, V::A(_)) {
                    base = self.prog.zero(*ty);
                }
                let v = Self::get(st, v);
                fn put(b: &mut V, path: &[u32], v: V) {
                    match b {
                        V::A(x) => {
                            let x = Rc::make_mut(x);
                            if path.len() == 1 {
                                x[path[0] as usize] = v;
                            } else {
                                put(&mut x[path[0] as usize], &path[1..], v);
                            }
                        }
                        _ => die("insertvalue"),
                    }
                }
                put(&mut base, path, v);
                Self::set(st, *dst, base);
            }
            Ins::ExtElt { dst, a, i } => {
                let i = Self::get(st, i);
                let i = self.concrete(st, &i, 64)?;
                let v = match Self::get(st, a) {
                    V::A(x) => x[i as usize].clone(),
                    _ => die("extractelement"),
                };
                Self::set(st, *dst, v);
            }
            Ins::InsElt { dst, a, v, i } => {
                let i = Self::get(st, i);
                let i = self.concrete(st, &i, 64)?;
                let v = Self::get(st, v);
                let r = match Self::get(st, a) {
                    V::A(mut x) => {
                        Rc::make_mut(&mut x)[i as usize] = v;
                        V::A(x)
                    }
                    _ => die("insertelement"),
                };
                Self::set(st, *dst, r);
            }
            Ins::Shuffle { dst, a, b, m } => {
                let (a, b, m) = (Self::get(st, a), Self::get(st, b), Self::get(st, m));
                let r = match (a, b, m) {
                    (V::A(a), V::A(b), V::A(m)) => {
                        let mut o = vec![];
                        for i in m.iter() {
                            if let V::C(i) = i {
                                let i = *i as usize;
                                o.push(if i < a.len() { a[i].clone() } else { b[i - a.len()].clone() });
                            }
                        }
                        V::A(Rc::new(o))
                    }
                    _ => die("shufflevector"),
                };
                Self::set(st, *dst, r);
            }
            Ins::Br(t) => {
                self.goto(st, *t);
                return Ok(false);
            }
            Ins::CondBr(c, x, y) => {
                let c = Self::get(st, c);
                let t = self.decide(st, &c)?;
                self.goto(st, if t { *x } else { *y });
                return Ok(false);
            }
            Ins::Switch { v, w, cases, default } => {
                let v = Self::get(st, v);
                let mut to = *default;
                match &v {
                    V::C(c) => {
                        for (k, b) in cases {
                            if k == c {
                                to = *b;
                                break;
                            }
                        }
                    }
                    _ => {
                        for (k, b) in cases {
                            let q = self.icmp(Pred::Eq, *w, &v, &V::C(*k));
                            if self.decide(st, &q)? {
                                to = *b;
                                break;
                            }
                        }
                    }
                }
                self.goto(st, to);
                return Ok(false);
            }
            Ins::Ret(v) => {
                let r = match v {
                    Some(o) => Self::get(st, o),
                    None => V::C(0),
                };
                self.pop_frame(st);
                if st.frames.is_empty() {
                    return Err(Sig::Done);
                }
                self.finish_call(st, r);
                return Ok(false);
            }
            Ins::Unreachable => {
                return viol("ub", "unreachable code reached (undefined behaviour)".into())
            }
            Ins::Call(c) => return self.call(st, c),
            Ins::LandingPad { dst, catch, filter, .. } => {
                let sel = if *catch {
                    1
                } else if *filter {
                    0xffff_ffff
                } else {
                    0
                };
                let v = V::A(Rc::new(vec![V::C(st.exc), V::C(sel)]));
                Self::set(st, *dst, v);
            }
            Ins::Resume(v) => {
                let exc = match Self::get(st, v) {
                    V::A(x) => x[0].clone(),
                    _ => die("resume"),
                };
                let exc = self.concrete(st, &exc, 64)?;
                self.pop_frame(st);
                self.unwind(st, exc)?;
                return Ok(false);
            }
            Ins::Rmw { op, w, dst, p, v } => {
                let pv = Self::get(st, p);
                let n = (*w / 8) as u64;
                let a = self.address(st, &pv, n)?;
                let old = self.load_int(st, a, n)?;
                let v = Self::get(st, v);
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.bin(Op::Add, *w, &old, &v),
                    "sub" => self.bin(Op::Sub, *w, &old, &v),
                    "and" => self.bin(Op::And, *w, &old, &v),
                    "or" => self.bin(Op::Or, *w, &old, &v),
                    "xor" => self.bin(Op::Xor, *w, &old, &v),
                    "umax" => {
                        let c = self.icmp(Pred::Ugt, *w, &old, &v);
                        self.select(&c, &old, &v, *w)
                    }
                    _ => return inconclusive(format!("atomicrmw {}", op)),
                };
                self.store_int(st, a, n, &new)?;
                Self::set(st, *dst, old);
            }
            Ins::CmpXchg { ty, dst, p, a, b } => {
                let pv = Self::get(st, p);
                let w = self.prog.bits(*ty);
                let n = (w / 8) as u64;
                let addr = self.address(st, &pv, n)?;
                let old = self.load_int(st, addr, n)?;
                let (x, y) = (Self::get(st, a), Self::get(st, b));
                let q = self.icmp(Pred::Eq, w, &old, &x);
                let ok = self.decide(st, &q)?;
                if ok {
                    self.store_int(st, addr, n, &y)?;
                }
                Self::set(st, *dst, V::A(Rc::new(vec![old, V::C(ok as u64)])));
            }
            Ins::Copy { dst, a } => {
                let v = Self::get(st, a);
                Self::set(st, *dst, v);
            }
            Ins::Nop => {}
        }
        Ok(true)
    }
    pub fn select(&mut self, c: &V, x: &V, y: &V, w: u32) -> V {
        match c {
            V::C(k) => {
                if *k != 0 {
                    x.clone()
                } else {
                    y.clone()
                }
            }
            V::S(c) => {
                let (x, y) = (self.ex(x, w), self.ex(y, w));
                let r = self.pool.ite(*c, x, y);
                self.val(r)
            }
            _ => die("select"),
        }
    }
    pub fn lanewise<F: FnMut(&mut Self, &V, &V) -> V>(&mut self, x: &V, y: &V, mut f: F) -> V {
        match (x, y) {
            (V::A(x), V::A(y)) => {
                let mut o = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    o.push(f(self, &x[i], &y[i]));
                }
                V::A(Rc::new(o))
            }
            _ => die("vector expected"),
        }
    }
    fn flat_bits(&mut self, t: TyId, v: &V) -> (Ex, u32) {
        match v {
            V::A(x) => {
                let w = self.prog.bits(t);
                let mut acc: Option<Ex> = None;
                for y in x.iter() {
                    let e = self.ex(y, w);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.pool.concat(e, a),
                    });
                }
                let e = acc.unwrap();
                let w = self.pool.w(e);
                (e, w)
            }
            _ => {
                let w = self.prog.bits(t);
                (self.ex(v, w), w)
            }
        }
    }
    fn bitcast(&mut self, from: TyId, to: TyId, v: &V) -> V {
        if from == to {
            return v.clone();
        }
        let (e, _) = self.flat_bits(from, v);
        let n = self.prog.lanes(to);
        if n == 0 {
            return self.val(e);
        }
        let w = self.prog.bits(to);
        let mut o = vec![];
        for i in 0..n {
            let x = self.pool.extract(e, i * w, w);
            o.push(self.val(x));
        }
        V::A(Rc::new(o))
    }
    pub fn pop_frame(&mut self, st: &mut State) {
        let fr = st.frames.pop().unwrap();
        for a in fr.allocas {
            st.mem.remove(&a);
        }
    }
    /// Deliver a call's result in the caller and move past the call.
    fn finish_call(&mut self, st: &mut State, r: V) {
        let fr = st.frames.last_mut().unwrap();
        let f = fr.func.clone();
        match &f.blocks[fr.block as usize].ins[fr.ip as usize] {
            Ins::Call(c) => {
                if let Some(d) = c.dst {
                    fr.regs[d as usize] = r;
                }
                match c.invoke {
                    Some((n, _)) => self.goto(st, n),
                    None => fr.ip += 1,
                }
            }
            _ => die("return to a non-call"),
        }
    }
    /// Unwind from the topmost frame, whose current instruction is a call.
    pub fn unwind(&mut self, st: &mut State, exc: u64) -> R<()> {
        loop {
            if st.frames.is_empty() {
                return viol("panic", format!("uncaught panic at {}", st.panic_at));
            }
            let fr = st.frames.last().unwrap();
            let inv = match &fr.func.blocks[fr.block as usize].ins[fr.ip as usize] {
                Ins::Call(c) => c.invoke,
                _ => die("unwinding through a non-call"),
            };
            if let Some((_, u)) = inv {
                st.exc = exc;
                self.goto(st, u);
                return Ok(());
            }
            self.pop_frame(st);
        }
    }
    /// Is there a handler for an exception raised from the topmost frame?
    pub fn has_handler(&self, st: &State) -> bool {
        for fr in st.frames.iter().rev() {
            if let Ins::Call(c) = &fr.func.blocks[fr.block as usize].ins[fr.ip as usize] {
                if let Some((_, u)) = c.invoke {
                    for i in &fr.func.blocks[u as usize].ins {
                        if let Ins::LandingPad { catch, filter, .. } = i {
                            if *catch || *filter {
                                return true;
                            }
                            break;
                        }
                    }
                }
            }
        }
        false
    }
    fn target(&mut self, s: SymId) -> Rc<Target> {
        if let Some(Some(t)) = self.targets.get(s as usize) {
            return t.clone();
        }
        let sym = self.prog.syms[s as usize].clone();
        let t = if let Some(n) = self.find_native(sym.name) {
            Target::Native(n)
        } else if sym.k == SymK::Func {
            Target::Body(self.prog.func(s, &mut self.pool))
        } else {
            Target::Unknown
        };
        let t = Rc::new(t);
        if self.targets.len() <= s as usize {
            self.targets.resize(s as usize + 1, None);
        }
        self.targets[s as usize] = Some(t.clone());
        t
    }
    fn call(&mut self, st: &mut State, c: &CallI) -> R<bool> {
        let s = match &c.callee {
            Callee::Sym(s) => *s,
            Callee::Asm(a) => {
                if a.is_empty() {
                    self.finish_call(st, V::C(0));
                    return Ok(false);
                }
                return inconclusive(format!("inline assembly {:?}", a));
            }
            Callee::Ptr(o) => {
                let v = Self::get(st, o);
                let a = self.concrete(st, &v, 64)?;
                let id = a >> SLOT;
                if id < FIRST_ID
                    || (id - FIRST_ID) as usize >= self.prog.syms.len()
                    || a != sym_addr((id - FIRST_ID) as SymId)
                {
                    return viol("memory", format!("call through a wild pointer {:#x}", a));
                }
                (id - FIRST_ID) as SymId
            }
        };
        let t = self.target(s);
        match &*t {
            Target::Native(n) => {
                let mut args = Vec::with_capacity(c.args.len());
                for (o, _) in &c.args {
                    args.push(Self::get(st, o));
                }
                match n(self, st, &args, c)? {
                    Flow::Next(v) => {
                        self.finish_call(st, v);
                        Ok(false)
                    }
                    Flow::Moved => Ok(false),
                    Flow::Body => {
                        let f = self.prog.func(s, &mut self.pool);
                        self.enter(st, s, &f, c)
                    }
                }
            }
            Target::Body(f) => self.enter(st, s, f, c),
            Target::Unknown => {
                inconclusive(format!("unmodelled external {}", self.prog.syms[s as usize].name))
            }
        }
    }
    fn enter(&mut self, st: &mut State, s: SymId, f: &Rc<Func>, c: &CallI) -> R<bool> {
                self.called.insert(s);
                let mut regs = vec![V::C(0); f.nregs as usize];
                for (i, (o, _)) in c.args.iter().enumerate() {
                    if i < f.nparams as usize {
                        regs[i] = Self::get(st, o);
                    }
                }
                if st.frames.len() > 2000 {
                    return inconclusive("call depth".into());
                }
                st.frames.push(Frame { func: f.clone(), regs, block: 0, ip: 0, allocas: vec![] });
                Ok(false)
    }
}
