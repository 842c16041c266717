//! z3 through its C API.
use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, t: P, e: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, u: *mut u64) -> bool;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_error(c: P, e: c_int) {
    let m = unsafe { std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("sx: z3 error: {:?}", m);
    std::process::exit(3);
}

pub type Model = HashMap<u32, u128>;

pub struct Solver {
    ctx: P,
    logic: P,
    params: P,
    memo: HashMap<Ex, P>,
    vars_memo: HashMap<Ex, std::rc::Rc<Vec<u32>>>,
    var_ast: HashMap<u32, P>,
    cache: HashMap<Vec<Ex>, Option<std::rc::Rc<Model>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub unsat: u64,
    pub time: f64,
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let ctx = Z3_mk_context(Z3_mk_config());
            Z3_set_error_handler(ctx, on_error);
            let s = CString::new("QF_BV").unwrap();
            let logic = Z3_mk_string_symbol(ctx, s.as_ptr());
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, params, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Solver {
                ctx,
                logic,
                params,
                memo: HashMap::new(),
                vars_memo: HashMap::new(),
                var_ast: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                unsat: 0,
                time: 0.0,
            }
        }
    }
    fn keep(&self, a: P) -> P {
        a
    }
    /// 1-bit bit-vector as a z3 Bool
    fn boolean(&mut self, p: &Pool, e: Ex) -> P {
        let n = p.n(e);
        unsafe {
            let c = self.ctx;
            match n.op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(p, n.a);
                    let b = self.bv(p, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.bv(p, e);
                    let one = self.numeral(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        }
    }
    fn numeral(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w))
        }
    }
    fn bv(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&a) = self.memo.get(&e) {
            return a;
        }
        // iterative post-order to keep the native stack small
        let mut st = vec![(e, false)];
        while let Some((x, ready)) = st.pop() {
            if self.memo.contains_key(&x) {
                continue;
            }
            let n = p.n(x);
            if !ready {
                st.push((x, true));
                match n.op {
                    Op::Const | Op::Var => {}
                    Op::Ite => {
                        st.push((n.a, false));
                        st.push((n.b, false));
                        st.push((n.c, false));
                    }
                    Op::Sext | Op::Extract => st.push((n.a, false)),
                    _ => {
                        st.push((n.a, false));
                        st.push((n.b, false));
                    }
                }
                continue;
            }
            let g = |s: &Self, y: Ex| s.memo[&y];
            let r = unsafe {
                let c = self.ctx;
                match n.op {
                    Op::Const => self.numeral(n.imm, n.w),
                    Op::Var => {
                        let s = CString::new(format!("v{}_{}", n.imm, n.w)).unwrap();
                        let a = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w));
                        self.var_ast.insert(n.imm as u32, a);
                        a
                    }
                    Op::Add => Z3_mk_bvadd(c, g(self, n.a), g(self, n.b)),
                    Op::Sub => Z3_mk_bvsub(c, g(self, n.a), g(self, n.b)),
                    Op::Mul => Z3_mk_bvmul(c, g(self, n.a), g(self, n.b)),
                    Op::UDiv => Z3_mk_bvudiv(c, g(self, n.a), g(self, n.b)),
                    Op::URem => Z3_mk_bvurem(c, g(self, n.a), g(self, n.b)),
                    Op::SDiv => Z3_mk_bvsdiv(c, g(self, n.a), g(self, n.b)),
                    Op::SRem => Z3_mk_bvsrem(c, g(self, n.a), g(self, n.b)),
                    Op::And => Z3_mk_bvand(c, g(self, n.a), g(self, n.b)),
                    Op::Or => Z3_mk_bvor(c, g(self, n.a), g(self, n.b)),
                    Op::Xor => Z3_mk_bvxor(c, g(self, n.a), g(self, n.b)),
                    Op::Shl => Z3_mk_bvshl(c, g(self, n.a), g(self, n.b)),
                    Op::LShr => Z3_mk_bvlshr(c, g(self, n.a), g(self, n.b)),
                    Op::AShr => Z3_mk_bvashr(c, g(self, n.a), g(self, n.b)),
                    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let b = self.boolean(p, x);
                        Z3_mk_ite(c, b, self.numeral(1, 1), self.numeral(0, 1))
                    }
                    Op::Ite => {
                        let one = self.numeral(1, 1);
                        let b = Z3_mk_eq(c, g(self, n.a), one);
                        Z3_mk_ite(c, b, g(self, n.b), g(self, n.c))
                    }
                    Op::Sext => Z3_mk_sign_ext(c, n.w - p.w(n.a), g(self, n.a)),
                    Op::Extract => {
                        Z3_mk_extract(c, n.imm as u32 + n.w - 1, n.imm as u32, g(self, n.a))
                    }
                    Op::Concat => Z3_mk_concat(c, g(self, n.a), g(self, n.b)),
                }
            };
            let r = self.keep(r);
            self.memo.insert(x, r);
        }
        self.memo[&e]
    }
    pub fn vars_of(&mut self, p: &Pool, e: Ex) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_memo.get(&e) {
            return v.clone();
        }
        let mut out = vec![];
        p.vars(e, &mut HashSet::new(), &mut out);
        let r = std::rc::Rc::new(out);
        self.vars_memo.insert(e, r.clone());
        r
    }
    /// Constraints connected to `q` through shared variables, plus `q`.
    fn slice(&mut self, p: &Pool, pc: &[Ex], q: Ex) -> Vec<Ex> {
        let mut vars: HashSet<u32> = self.vars_of(p, q).iter().copied().collect();
        let mut left: Vec<Ex> = pc.to_vec();
        let mut out = vec![q];
        loop {
            let mut moved = false;
            let mut rest = vec![];
            for c in left {
                let vs = self.vars_of(p, c);
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter().copied());
                    out.push(c);
                    moved = true;
                } else {
                    rest.push(c);
                }
            }
            left = rest;
            if !moved {
                break;
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }
    /// Is `pc && q` satisfiable? Assumes `pc` alone is (with model `base`).
    /// Returns a full model (base updated).
    pub fn check(&mut self, p: &Pool, pc: &[Ex], q: Ex, base: &Model) -> Option<Model> {
        if let Some(v) = p.as_const(q) {
            return if v != 0 { Some(base.clone()) } else { None };
        }
        let set = self.slice(p, pc, q);
        let part = if let Some(r) = self.cache.get(&set) {
            self.cache_hits += 1;
            r.clone()
        } else {
            let r = self.raw(p, &set).map(std::rc::Rc::new);
            self.cache.insert(set, r.clone());
            r
        };
        part.map(|m| {
            let mut full = base.clone();
            for (k, v) in m.iter() {
                full.insert(*k, *v);
            }
            full
        })
    }
    fn raw(&mut self, p: &Pool, set: &[Ex]) -> Option<Model> {
        let t = Instant::now();
        self.queries += 1;
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(self.ctx, self.logic);
            Z3_solver_inc_ref(self.ctx, s);
            Z3_solver_set_params(self.ctx, s, self.params);
            let mut vars: HashMap<u32, u32> = HashMap::new();
            for &e in set {
                for v in self.vars_of(p, e).iter() {
                    vars.insert(*v, 0);
                }
                let a = self.boolean(p, e);
                Z3_solver_assert(self.ctx, s, a);
            }
            let r = Z3_solver_check(self.ctx, s);
            let out = if r == 1 {
                let m = Z3_solver_get_model(self.ctx, s);
                Z3_model_inc_ref(self.ctx, m);
                let mut model = Model::new();
                for v in vars.keys() {
                    let a = self.var_ast[v];
                    let mut o: P = std::ptr::null_mut();
                    if !Z3_model_eval(self.ctx, m, a, true, &mut o) {
                        eprintln!("sx: model evaluation failed");
                        std::process::exit(3);
                    }
                    let mut u = 0u64;
                    let val = if Z3_get_numeral_uint64(self.ctx, o, &mut u) {
                        u as u128
                    } else {
                        std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, o))
                            .to_string_lossy()
                            .parse::<u128>()
                            .unwrap()
                    };
                    model.insert(*v, val);
                }
                Z3_model_dec_ref(self.ctx, m);
                Some(model)
            } else if r == -1 {
                self.unsat += 1;
                None
            } else {
                eprintln!("sx: INCONCLUSIVE solver returned unknown (timeout)");
                std::process::exit(3);
            };
            Z3_solver_dec_ref(self.ctx, s);
            out
        };
        self.time += t.elapsed().as_secs_f64();
        // the model must satisfy what was asserted: guards the encoding
        if let Some(m) = &r {
            let mut memo = HashMap::new();
            for &e in set {
                if p.eval(e, m, &mut memo) != 1 {
                    eprintln!("sx: INTERNAL model does not satisfy the query");
                    std::process::exit(3);
                }
            }
        }
        r
    }
}
