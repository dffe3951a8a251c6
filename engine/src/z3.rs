//! Minimal FFI to libz3 and the translation of the DAG into it.
use crate::expr::*;
use std::ffi::{c_char, c_void, CStr, CString};

type Cx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context_rc(c: *mut c_void) -> Cx;
    fn Z3_set_error_handler(c: Cx, h: Option<extern "C" fn(Cx, i32)>);
    fn Z3_mk_string_symbol(c: Cx, s: *const c_char) -> *mut c_void;
    fn Z3_mk_bv_sort(c: Cx, sz: u32) -> Sort;
    fn Z3_mk_const(c: Cx, s: *mut c_void, ty: Sort) -> Ast;
    fn Z3_mk_numeral(c: Cx, n: *const c_char, ty: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Cx, v: u64, ty: Sort) -> Ast;
    fn Z3_mk_true(c: Cx) -> Ast;
    fn Z3_mk_false(c: Cx) -> Ast;
    fn Z3_mk_eq(c: Cx, l: Ast, r: Ast) -> Ast;
    fn Z3_mk_not(c: Cx, a: Ast) -> Ast;
    fn Z3_mk_xor(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_and(c: Cx, n: u32, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Cx, n: u32, a: *const Ast) -> Ast;
    fn Z3_mk_ite(c: Cx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Cx, i: u32, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Cx, i: u32, a: Ast) -> Ast;
    fn Z3_mk_extract(c: Cx, hi: u32, lo: u32, a: Ast) -> Ast;
    fn Z3_mk_concat(c: Cx, a: Ast, b: Ast) -> Ast;
    fn Z3_inc_ref(c: Cx, a: Ast);
    fn Z3_mk_solver_for_logic(c: Cx, s: *mut c_void) -> Solver;
    fn Z3_mk_simple_solver(c: Cx) -> Solver;
    fn Z3_solver_inc_ref(c: Cx, s: Solver);
    fn Z3_solver_dec_ref(c: Cx, s: Solver);
    fn Z3_solver_push(c: Cx, s: Solver);
    fn Z3_solver_pop(c: Cx, s: Solver, n: u32);
    fn Z3_solver_assert(c: Cx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Cx, s: Solver) -> i32;
    fn Z3_solver_get_model(c: Cx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Cx, m: Model);
    fn Z3_model_dec_ref(c: Cx, m: Model);
    fn Z3_model_eval(c: Cx, m: Model, t: Ast, completion: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Cx, v: Ast, u: *mut u64) -> bool;
    fn Z3_mk_params(c: Cx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Cx, p: *mut c_void);
    fn Z3_params_dec_ref(c: Cx, p: *mut c_void);
    fn Z3_params_set_uint(c: Cx, p: *mut c_void, k: *mut c_void, v: u32);
    fn Z3_solver_set_params(c: Cx, s: Solver, p: *mut c_void);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: Cx, s: Solver) -> *const c_char;
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

extern "C" fn on_err(_c: Cx, e: i32) {
    eprintln!("llsym: z3 error {e}");
    std::process::exit(70);
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    cx: Cx,
    solver: Solver,
    bv: Vec<Ast>,
    bo: Vec<Ast>,
    /// asserted path condition, one scope per conjunct
    stack: Vec<u32>,
    asserted_since_reset: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub max_secs: f64,
    simple: bool,
    /// queries the simple solver gave up on
    pub hard: u64,
    sorts: std::cell::RefCell<std::collections::HashMap<u32, Sort>>,
    bits: std::cell::RefCell<std::collections::HashMap<u8, Ast>>,
    cur_timeout: u32,
    /// dump of non-trivial queries as SMT-LIB2 (for cross-checking with another solver)
    pub dump_dir: Option<String>,
    pub dump_every: u64,
    pub dumped: u64,
}

impl Z3 {
    pub fn new(simple: bool) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let cx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(cx, Some(on_err));
            let mut z = Z3 {
                cx,
                solver: std::ptr::null_mut(),
                bv: vec![],
                bo: vec![],
                stack: vec![],
                asserted_since_reset: 0,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                secs: 0.0,
                max_secs: 0.0,
                simple,
                hard: 0,
                sorts: Default::default(),
                bits: Default::default(),
                cur_timeout: 0,
                dump_dir: None,
                dump_every: 0,
                dumped: 0,
            };
            z.new_solver();
            z
        }
    }
    fn new_solver(&mut self) {
        unsafe {
            if !self.solver.is_null() {
                Z3_solver_dec_ref(self.cx, self.solver);
            }
            self.solver = if self.simple {
                Z3_mk_simple_solver(self.cx)
            } else {
                let s = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(self.cx, Z3_mk_string_symbol(self.cx, s.as_ptr()))
            };
            Z3_solver_inc_ref(self.cx, self.solver);
            self.stack.clear();
            self.asserted_since_reset = 0;
            self.cur_timeout = 0;
        }
    }
    /// Deterministic resource limit per query (Z3 "rlimit"); Z3's wall-clock
    /// timeout is not used because its timer threads do not survive fork().
    fn set_rlimit(&mut self, ms: u32) {
        if self.cur_timeout == ms {
            return;
        }
        unsafe {
            let p = Z3_mk_params(self.cx);
            Z3_params_inc_ref(self.cx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.cx, p, Z3_mk_string_symbol(self.cx, k.as_ptr()), ms);
            Z3_solver_set_params(self.cx, self.solver, p);
            Z3_params_dec_ref(self.cx, p);
        }
        self.cur_timeout = ms;
    }
    fn sort(&self, w: u32) -> Sort {
        // referenced once and for all: in reference-counted mode Z3 keeps
        // only the last unreferenced result alive
        let mut c = self.sorts.borrow_mut();
        *c.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(self.cx, w);
            Z3_inc_ref(self.cx, s as Ast);
            s
        })
    }
    fn num(&self, v: u128, w: u32) -> Ast {
        if v < 2 && w == 1 {
            if let Some(a) = self.bits.borrow().get(&(v as u8)) {
                return *a;
            }
        }
        let a = self.num_(v, w);
        if v < 2 && w == 1 {
            unsafe { Z3_inc_ref(self.cx, a) };
            self.bits.borrow_mut().insert(v as u8, a);
        }
        a
    }
    fn num_(&self, v: u128, w: u32) -> Ast {
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.cx, v as u64, self.sort(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.cx, s.as_ptr(), self.sort(w))
            }
        }
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n, std::ptr::null_mut());
            self.bo.resize(n, std::ptr::null_mut());
        }
    }
    /// make sure every node below `root` is translated; children first
    fn translate(&mut self, x: &Ctx, root: u32) {
        self.grow(x.nodes.len());
        let mut stack = vec![root];
        while let Some(&i) = stack.last() {
            let iu = i as usize;
            if !self.bv[iu].is_null() || !self.bo[iu].is_null() {
                stack.pop();
                continue;
            }
            let n = x.nodes[iu];
            let mut ready = true;
            for c in [n.a, n.b, n.c] {
                if c != NONE && self.bv[c as usize].is_null() && self.bo[c as usize].is_null() {
                    stack.push(c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            unsafe { self.mk(x, i, &n) };
            stack.pop();
        }
    }
    fn as_bv(&mut self, x: &Ctx, i: u32) -> Ast {
        let iu = i as usize;
        if self.bv[iu].is_null() {
            debug_assert!(x.nodes[iu].w == 1);
            unsafe {
                let a = Z3_mk_ite(self.cx, self.bo[iu], self.num(1, 1), self.num(0, 1));
                Z3_inc_ref(self.cx, a);
                self.bv[iu] = a;
            }
        }
        self.bv[iu]
    }
    fn as_bool(&mut self, i: u32) -> Ast {
        let iu = i as usize;
        if self.bo[iu].is_null() {
            unsafe {
                let a = Z3_mk_eq(self.cx, self.bv[iu], self.num(1, 1));
                Z3_inc_ref(self.cx, a);
                self.bo[iu] = a;
            }
        }
        self.bo[iu]
    }
    unsafe fn mk(&mut self, x: &Ctx, i: u32, n: &Node) {
        let c = self.cx;
        let w = n.w as u32;
        if w == 1 {
            // booleans where possible
            let b = match n.op {
                Op::Const => {
                    if x.consts[n.x as usize] == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (p, q) = (self.as_bv(x, n.a), self.as_bv(x, n.b));
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, p, q),
                        Op::Ult => Z3_mk_bvult(c, p, q),
                        Op::Ule => Z3_mk_bvule(c, p, q),
                        Op::Slt => Z3_mk_bvslt(c, p, q),
                        _ => Z3_mk_bvsle(c, p, q),
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.as_bool(n.a), self.as_bool(n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    if let E::C(1) = x.e(n.b) {
                        let p = self.as_bool(n.a);
                        Z3_mk_not(c, p)
                    } else {
                        let (p, q) = (self.as_bool(n.a), self.as_bool(n.b));
                        Z3_mk_xor(c, p, q)
                    }
                }
                Op::Ite => {
                    let (p, q, r) = (self.as_bool(n.a), self.as_bool(n.b), self.as_bool(n.c));
                    Z3_mk_ite(c, p, q, r)
                }
                _ => std::ptr::null_mut(),
            };
            if !b.is_null() {
                Z3_inc_ref(c, b);
                self.bo[i as usize] = b;
                return;
            }
        }
        let a = match n.op {
            Op::Const => self.num(x.consts[n.x as usize], w),
            Op::Var => {
                let s = CString::new(format!("in{}_{}", n.x, w)).unwrap();
                Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(w))
            }
            Op::ZExt => Z3_mk_zero_ext(c, w - n.aw as u32, self.as_bv(x, n.a)),
            Op::SExt => Z3_mk_sign_ext(c, w - n.aw as u32, self.as_bv(x, n.a)),
            Op::Extract => Z3_mk_extract(c, n.x + w - 1, n.x, self.as_bv(x, n.a)),
            Op::Concat => Z3_mk_concat(c, self.as_bv(x, n.a), self.as_bv(x, n.b)),
            Op::Ite => {
                let (p, q, r) = (self.as_bool(n.a), self.as_bv(x, n.b), self.as_bv(x, n.c));
                Z3_mk_ite(c, p, q, r)
            }
            op => {
                let (p, q) = (self.as_bv(x, n.a), self.as_bv(x, n.b));
                match op {
                    Op::Add => Z3_mk_bvadd(c, p, q),
                    Op::Sub => Z3_mk_bvsub(c, p, q),
                    Op::Mul => Z3_mk_bvmul(c, p, q),
                    Op::UDiv => Z3_mk_bvudiv(c, p, q),
                    Op::URem => Z3_mk_bvurem(c, p, q),
                    Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                    Op::SRem => Z3_mk_bvsrem(c, p, q),
                    Op::And => Z3_mk_bvand(c, p, q),
                    Op::Or => Z3_mk_bvor(c, p, q),
                    Op::Xor => Z3_mk_bvxor(c, p, q),
                    Op::Shl => Z3_mk_bvshl(c, p, q),
                    Op::LShr => Z3_mk_bvlshr(c, p, q),
                    Op::AShr => Z3_mk_bvashr(c, p, q),
                    _ => unreachable!(),
                }
            }
        };
        Z3_inc_ref(c, a);
        self.bv[i as usize] = a;
    }

    /// bring the solver's scope stack in line with `pc`
    fn sync(&mut self, x: &Ctx, pc: &[u32]) {
        let common = self.stack.iter().zip(pc).take_while(|(a, b)| a == b).count();
        if self.asserted_since_reset > 20000 {
            self.new_solver();
        } else if common < self.stack.len() {
            unsafe { Z3_solver_pop(self.cx, self.solver, (self.stack.len() - common) as u32) };
            self.stack.truncate(common);
        }
        for k in self.stack.len()..pc.len() {
            let id = pc[k];
            self.translate(x, id);
            let a = self.as_bool(id);
            unsafe {
                Z3_solver_push(self.cx, self.solver);
                Z3_solver_assert(self.cx, self.solver, a);
            }
            self.asserted_since_reset += 1;
            self.stack.push(id);
        }
    }

    /// is pc /\ extra satisfiable?  On Sat returns the values of the inputs
    /// (given as (var node id) list).
    pub fn check(&mut self, x: &Ctx, pc: &[u32], extra: Option<u32>, inputs: &[u32], rlimit: u32) -> (Res, Vec<u64>) {
        if !self.simple {
            return self.check1(x, pc, extra, inputs, rlimit);
        }
        // the simple solver is fast on easy queries; the others go to the
        // bit-blasting one
        let r = self.check1(x, pc, extra, inputs, if rlimit == 0 { 3_000_000 } else { rlimit.min(3_000_000) });
        if r.0 != Res::Unknown {
            return r;
        }
        self.hard += 1;
        self.unknown -= 1;
        self.queries -= 1;
        self.simple = false;
        self.new_solver();
        let r = self.check1(x, pc, extra, inputs, rlimit);
        if self.hard < 4 {
            self.simple = true;
            self.new_solver();
        }
        r
    }
    fn check1(&mut self, x: &Ctx, pc: &[u32], extra: Option<u32>, inputs: &[u32], rlimit: u32) -> (Res, Vec<u64>) {
        self.sync(x, pc);
        let t0 = std::time::Instant::now();
        let r;
        let mut model = vec![];
        unsafe {
            if let Some(e) = extra {
                self.translate(x, e);
                let a = self.as_bool(e);
                Z3_solver_push(self.cx, self.solver);
                Z3_solver_assert(self.cx, self.solver, a);
                self.asserted_since_reset += 1;
            }
            self.set_rlimit(rlimit);
            r = match Z3_solver_check(self.cx, self.solver) {
                1 => Res::Sat,
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if r == Res::Sat {
                let m = Z3_solver_get_model(self.cx, self.solver);
                Z3_model_inc_ref(self.cx, m);
                for &v in inputs {
                    if v == NONE {
                        model.push(0);
                        continue;
                    }
                    self.grow(x.nodes.len());
                    if self.bv[v as usize].is_null() && self.bo[v as usize].is_null() {
                        model.push(0); // never reached the solver: unconstrained
                        continue;
                    }
                    let a = self.as_bv(x, v);
                    let mut out: Ast = std::ptr::null_mut();
                    let ok = Z3_model_eval(self.cx, m, a, true, &mut out);
                    assert!(ok);
                    Z3_inc_ref(self.cx, out);
                    let mut u = 0u64;
                    let ok = Z3_get_numeral_uint64(self.cx, out, &mut u);
                    assert!(ok);
                    model.push(u);
                }
                Z3_model_dec_ref(self.cx, m);
            }
            let dt = t0.elapsed().as_secs_f64();
            if let Some(d) = &self.dump_dir {
                if r != Res::Unknown && self.dump_every > 0 && (self.queries % self.dump_every == 0) && self.dumped < 40 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.cx, self.solver)).to_string_lossy();
                    let name = format!("{}/q{}_{}_{:?}.smt2", d, std::process::id(), self.queries, r);
                    let _ = std::fs::write(name, format!("; expected {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", if r == Res::Sat { "sat" } else { "unsat" }, s));
                    self.dumped += 1;
                }
            }
            if extra.is_some() {
                Z3_solver_pop(self.cx, self.solver, 1);
            }
            self.queries += 1;
            match r {
                Res::Sat => self.sat += 1,
                Res::Unsat => self.unsat += 1,
                Res::Unknown => self.unknown += 1,
            }
            self.secs += dt;
            if dt > self.max_secs {
                self.max_secs = dt;
            }
        }
        (r, model)
    }
}
