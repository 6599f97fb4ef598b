//! Z3-backed decision procedure with constraint slicing and a query cache.
use crate::expr::*;
use crate::z3::*;
use std::collections::HashMap;
use std::rc::Rc;
use std::time::Instant;

pub struct Solver {
    ctx: Context,
    s: crate::z3::Solver,
    bv: HashMap<E, Ast>,
    bo: HashMap<E, Ast>,
    cache: HashMap<Vec<E>, Option<Rc<HashMap<u32, u128>>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<std::fs::File>,
    pub dumped: u64,
    pub dump_max: u64,
}

pub enum Res {
    Sat(Rc<HashMap<u32, u128>>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            extern "C" fn eh(_: Context, _: i32) {}
            Z3_set_error_handler(ctx, Some(eh));
            let lg = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const _);
            let _ = lg;
            let s = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = Z3_mk_string_symbol(ctx, b"timeout\0".as_ptr() as *const _);
            Z3_params_set_uint(ctx, p, k, timeout_ms);
            let k = Z3_mk_string_symbol(ctx, b"random_seed\0".as_ptr() as *const _);
            let seed: u32 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            Z3_params_set_uint(ctx, p, k, seed);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                bv: HashMap::new(),
                bo: HashMap::new(),
                cache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cache_hits: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
                dumped: 0,
                dump_max: 0,
            }
        }
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = format!("{}\0", v);
                Z3_mk_numeral(self.ctx, t.as_ptr() as *const _, s)
            }
        }
    }
    fn to_bool(&mut self, x: &Ctx, e: E) -> Ast {
        if let Some(a) = self.bo.get(&e) {
            return *a;
        }
        let c = self.ctx;
        let r = unsafe {
            match x.n(e) {
                N::Const(v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                N::Eq(a, b) => {
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    Z3_mk_eq(c, p, q)
                }
                N::Ult(a, b) => {
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    Z3_mk_bvult(c, p, q)
                }
                N::Slt(a, b) => {
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    Z3_mk_bvslt(c, p, q)
                }
                N::Bin(B::And, a, b) => {
                    let v = [self.to_bool(x, a), self.to_bool(x, b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Bin(B::Or, a, b) => {
                    let v = [self.to_bool(x, a), self.to_bool(x, b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::Bin(B::Xor, a, b) => {
                    let p = self.to_bool(x, a);
                    if x.as_const(b) == Some(1) {
                        Z3_mk_not(c, p)
                    } else {
                        let q = self.to_bool(x, b);
                        Z3_mk_xor(c, p, q)
                    }
                }
                N::Ite(k, a, b) => {
                    let k = self.to_bool(x, k);
                    let p = self.to_bool(x, a);
                    let q = self.to_bool(x, b);
                    Z3_mk_ite(c, k, p, q)
                }
                _ => {
                    let p = self.to_bv(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, p, one)
                }
            }
        };
        self.bo.insert(e, r);
        r
    }
    fn to_bv(&mut self, x: &Ctx, e: E) -> Ast {
        if let Some(a) = self.bv.get(&e) {
            return *a;
        }
        let c = self.ctx;
        let w = x.w(e);
        let r = unsafe {
            match x.n(e) {
                N::Const(v) => self.num(v, w),
                N::Var(v) => {
                    let s = Z3_mk_bv_sort(c, w);
                    let y = Z3_mk_int_symbol(c, v as i32);
                    Z3_mk_const(c, y, s)
                }
                N::Eq(..) | N::Ult(..) | N::Slt(..) => {
                    let b = self.to_bool(x, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
                N::Bin(op, a, b) => {
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    match op {
                        B::Add => Z3_mk_bvadd(c, p, q),
                        B::Sub => Z3_mk_bvsub(c, p, q),
                        B::Mul => Z3_mk_bvmul(c, p, q),
                        B::UDiv => Z3_mk_bvudiv(c, p, q),
                        B::URem => Z3_mk_bvurem(c, p, q),
                        B::SDiv => Z3_mk_bvsdiv(c, p, q),
                        B::SRem => Z3_mk_bvsrem(c, p, q),
                        B::And => Z3_mk_bvand(c, p, q),
                        B::Or => Z3_mk_bvor(c, p, q),
                        B::Xor => Z3_mk_bvxor(c, p, q),
                        B::Shl => Z3_mk_bvshl(c, p, q),
                        B::LShr => Z3_mk_bvlshr(c, p, q),
                        B::AShr => Z3_mk_bvashr(c, p, q),
                    }
                }
                N::Ite(k, a, b) => {
                    let k = self.to_bool(x, k);
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    Z3_mk_ite(c, k, p, q)
                }
                N::ZExt(a) => {
                    let p = self.to_bv(x, a);
                    Z3_mk_zero_ext(c, w - x.w(a), p)
                }
                N::SExt(a) => {
                    let p = self.to_bv(x, a);
                    Z3_mk_sign_ext(c, w - x.w(a), p)
                }
                N::Extract(a, lo) => {
                    let p = self.to_bv(x, a);
                    Z3_mk_extract(c, lo + w - 1, lo, p)
                }
                N::Concat(a, b) => {
                    let p = self.to_bv(x, a);
                    let q = self.to_bv(x, b);
                    Z3_mk_concat(c, p, q)
                }
            }
        };
        self.bv.insert(e, r);
        r
    }

    /// Is pc ∧ q satisfiable?  Only the constraints that share variables (transitively) with q
    /// are sent to the solver; the returned model covers those variables only.
    pub fn check(&mut self, x: &Ctx, pc: &[E], q: E) -> Res {
        if let Some(v) = x.as_const(q) {
            if v == 0 {
                return Res::Unsat;
            }
        }
        let mut vars: std::collections::HashSet<u32> = x.vars_of(q).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        let mut sel = vec![q];
        loop {
            let mut ch = false;
            for (i, c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = x.vars_of(*c);
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    sel.push(*c);
                    for v in vs.iter() {
                        if vars.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        sel.sort_unstable();
        sel.dedup();
        if let Some(r) = self.cache.get(&sel) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t0 = Instant::now();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.s);
            for e in &sel {
                let b = self.to_bool(x, *e);
                Z3_solver_assert(self.ctx, self.s, b);
            }
            if self.dump.is_some() && self.dumped < self.dump_max {
                use std::io::Write;
                let p = Z3_solver_to_string(self.ctx, self.s);
                let t = std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned();
                if let Some(f) = &mut self.dump {
                    let _ = writeln!(f, "(push 1)\n{}\n(check-sat)\n(pop 1)", t);
                }
            }
            let r = Z3_solver_check(self.ctx, self.s);
            let err = Z3_get_error_code(self.ctx);
            let out = if err != 0 {
                Res::Unknown
            } else if r == 1 {
                let m = Z3_solver_get_model(self.ctx, self.s);
                Z3_model_inc_ref(self.ctx, m);
                let mut mm = HashMap::new();
                for v in vars.iter() {
                    let w = x.var_w[*v as usize];
                    let s = Z3_mk_bv_sort(self.ctx, w);
                    let y = Z3_mk_int_symbol(self.ctx, *v as i32);
                    let a = Z3_mk_const(self.ctx, y, s);
                    let mut o: Ast = std::ptr::null_mut();
                    if Z3_model_eval(self.ctx, m, a, true, &mut o) {
                        let mut u = 0u64;
                        if Z3_get_numeral_uint64(self.ctx, o, &mut u) {
                            mm.insert(*v, u as u128);
                        } else {
                            let p = Z3_get_numeral_string(self.ctx, o);
                            let t = std::ffi::CStr::from_ptr(p).to_string_lossy();
                            mm.insert(*v, t.parse::<u128>().unwrap_or(0));
                        }
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
                Res::Sat(Rc::new(mm))
            } else if r == -1 {
                Res::Unsat
            } else {
                Res::Unknown
            };
            Z3_solver_pop(self.ctx, self.s, 1);
            out
        };
        if self.dump.is_some() && self.dumped < self.dump_max {
            use std::io::Write;
            let v = match r {
                Res::Sat(_) => "sat",
                Res::Unsat => "unsat",
                Res::Unknown => "unknown",
            };
            if let Some(f) = &mut self.dump {
                let _ = writeln!(f, "; verdict {}", v);
            }
            self.dumped += 1;
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.queries += 1;
        match &r {
            Res::Sat(m) => {
                self.sat += 1;
                self.cache.insert(sel, Some(m.clone()));
            }
            Res::Unsat => {
                self.unsat += 1;
                self.cache.insert(sel, None);
            }
            Res::Unknown => self.unknown += 1,
        }
        r
    }
}
